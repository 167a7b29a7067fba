"""Calls with input that may be invalid; analysed, never run."""
import glass.algorithm
import glass.fields
import glass.galaxies
import glass.grf
import glass.jax
import glass.lensing
import glass.observations
import glass.points
import glass.shapes
import glass.shells


def normals(n):
    return [glass.grf.Normal() for _ in range(n)]


def windows(z, w, n):
    return [glass.shells.RadialWindow(z, w, 0.5 + i) for i in range(n)]


# -------------------------------------------------------------------------- fields
def nfields(n):
    return glass.fields.nfields_from_nspectra(n)


def first_field(n, gls):
    for x in glass.fields.generate(normals(n), gls, 1):
        return x


def first_gaussian(gls):
    for x in glass.fields.generate_gaussian(gls, 1):
        return x


def first_lognormal(gls):
    for x in glass.fields.generate_lognormal(gls, 1):
        return x


def computed(n, spectra):
    return glass.fields.compute_gaussian_spectra(normals(n), spectra)


def solved(n, spectra):
    return glass.fields.solve_gaussian_spectra(normals(n), spectra)


def lognormal_gls(spectra):
    return glass.fields.lognormal_gls(spectra)


def discretized(spectra):
    return glass.fields.discretized_cls(spectra, ncorr=1)


def to_healpix(spectra):
    return glass.fields.glass_to_healpix_spectra(spectra)


def from_healpix(spectra):
    return glass.fields.healpix_to_glass_spectra(spectra)


def covariance(spectra):
    return glass.fields.cov_from_spectra(spectra)


def regularized(spectra, method):
    return glass.fields.regularized_spectra(spectra, method=method)


def effective(spectra, w1, w2):
    return glass.fields.effective_cls(spectra, w1, w2)


def rows(cov):
    return list(glass.fields.iternorm(cov))


def columns(cls, nl, nf, nc):
    return [x.copy() for x in glass.fields.cls2cov(cls, nl, nf, nc)]


# ----------------------------------------------------------------------- algorithm
def nnls(a, b):
    return glass.algorithm.nnls(a, b)


def nearcorr(a):
    return glass.algorithm.nearcorr(a)


def cov_nearest(a):
    return glass.algorithm.cov_nearest(a)


# ------------------------------------------------------------------------- windows
def tophat(z):
    return glass.shells.tophat_windows(z)


def linear(z):
    return glass.shells.linear_windows(z)


def cubic(z):
    return glass.shells.cubic_windows(z)


def restricted(z, f, za, wa):
    return glass.shells.restrict(z, f, glass.shells.RadialWindow(za, wa))


def parts(z, f, za, wa, method):
    return glass.shells.partition(z, f, windows(za, wa, 1), method=method)


def zgrid(dz, num):
    return glass.shells.redshift_grid(0.0, 1.0, dz=dz, num=num)


def dgrid(cosmo, dx, num):
    return glass.shells.distance_grid(cosmo, 0.0, 1.0, dx=dx, num=num)


def zbins(nbins, dz):
    return glass.observations.fixed_zbins(0.0, 1.0, nbins=nbins, dz=dz)


def stripes(galactic, ecliptic):
    return glass.observations.vmap_galactic_ecliptic(4, galactic, ecliptic)


def plane_weights(weights, z, w, n, cosmo):
    return glass.lensing.multi_plane_weights(weights, windows(z, w, n), cosmo)


def planes(zs, delta, cosmo):
    m = glass.lensing.MultiPlaneConvergence(cosmo)
    for z in zs:
        m.add_plane(delta, z)
    return m.kappa


# ------------------------------------------------------------------------ sampling
def first_positions(ngal, delta, model, rng):
    for x in glass.points.positions_from_delta(ngal, delta, bias_model=model, rng=rng):
        return x


def phz(z, sigma, lower, upper, rng):
    return glass.galaxies.gaussian_phz(z, sigma, lower=lower, upper=upper, rng=rng)


def norm_shapes(count, sigma, rng):
    return glass.shapes.ellipticity_intnorm(count, sigma, rng=rng)


def resampled(eps, varg, vargamma, rng):
    return glass.shapes.resample_shapes(eps, varg=varg, vargamma=vargamma, rng=rng)


def resampled_parts(x, y, varg, vargamma, rng):
    return glass.shapes.resample_shapes(x + 1j * y, varg=varg, vargamma=vargamma, rng=rng)


# ------------------------------------------------------------- transformations
def made(kind, a):
    if kind == "normal":
        return glass.grf.Normal()
    if kind == "lognormal":
        return glass.grf.Lognormal(a)
    return glass.grf.SquaredNormal(a)


def corr(k1, k2, a, b, x):
    return glass.grf.corr(made(k1, a), made(k2, b), x)


def icorr(k1, k2, a, b, x):
    return glass.grf.icorr(made(k1, a), made(k2, b), x)


def dcorr(k1, k2, a, b, x):
    return glass.grf.dcorr(made(k1, a), made(k2, b), x)


def solve(cl, pad):
    return glass.grf.solve(cl, glass.grf.Normal(), pad=pad, maxiter=0)


def jax_normal(seed, loc, scale, size):
    return glass.jax.Generator(seed).normal(loc, scale, size)


def jax_uniform(seed, low, high, size):
    return glass.jax.Generator(seed).uniform(low, high, size)


def jax_poisson(seed, lam, size):
    return glass.jax.Generator(seed).poisson(lam, size)
