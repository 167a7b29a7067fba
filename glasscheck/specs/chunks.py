"""Programs on chunked functions; analysed, never run."""
from glass.galaxies import galaxy_shear, redshifts_from_bins, redshifts_from_nz
from glass.points import positions_from_delta, uniform_positions
from glass.shapes import ellipticity_gaussian, ellipticity_intnorm
from glass.shells import RadialWindow, distribute


def shear(lon, lat, eps, kappa, gamma1, gamma2, reduced_shear):
    return galaxy_shear(lon, lat, eps, kappa, gamma1, gamma2, reduced_shear=reduced_shear)


def shells(redshifts, za1, wa1, ze1, za2, wa2, ze2, rng):
    return distribute(redshifts, [RadialWindow(za1, wa1, ze1), RadialWindow(za2, wa2, ze2)], rng=rng)


def bins(bins, z, keys, values, rng):
    return redshifts_from_bins(bins, z, dict(zip(keys, values)), rng=rng)


def nz(count, z, nz, rng):
    return redshifts_from_nz(count, z, nz, rng=rng, warn=False)


def gaussian(count, sigma, rng):
    return ellipticity_gaussian(count, sigma, rng=rng)


def intnorm(count, sigma, rng):
    return ellipticity_intnorm(count, sigma, rng=rng)


def points(ngal, delta, bias, vis, batch, rng):
    return list(positions_from_delta(ngal, delta, bias, vis, batch=batch, rng=rng))


def uniform(ngal, rng):
    return list(uniform_positions(ngal, rng=rng))
