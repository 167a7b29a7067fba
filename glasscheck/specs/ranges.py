"""Samplers with symbolic parameters; analysed, never run."""
import glass.galaxies
import glass.points
import glass.shapes


def gauss_shapes(count, sigma, rng):
    return glass.shapes.ellipticity_gaussian(count, sigma, rng=rng)


def norm_shapes(count, sigma, rng):
    return glass.shapes.ellipticity_intnorm(count, sigma, rng=rng)


def ryden(mu, sigma, gamma, sigma_gamma, rng):
    return glass.shapes.ellipticity_ryden04(mu, sigma, gamma, sigma_gamma, rng=rng)


def axis_ratio(zeta, xi, rng):
    return glass.shapes.triaxial_axis_ratio(zeta, xi, rng=rng)


def phz(z, sigma, lower, upper, rng):
    return glass.galaxies.gaussian_phz(z, sigma, lower=lower, upper=upper, rng=rng)


def uniform(ngal, rng):
    return [(lon, lat) for lon, lat, c in glass.points.uniform_positions(ngal, rng=rng)]


def counts(ngal, delta, b, vis, mono, rng):
    return [c for _, _, c in glass.points.positions_from_delta(ngal, delta, b, vis, remove_monopole=mono, rng=rng)]
