"""Programs on conversions between array libraries; analysed, never run."""
import numpy as np

import glass.jax
import glass.healpix
import glass.rng
from glass._array_api_utils import numpy_fallback
from glass._array_api_utils import xp_additions as uxpx


def inner(x, pair, flag, key):
    return (np.add(x, pair[0]), [np.multiply(x, key), pair[1]], flag)


def wrapped(a, b, k):
    return numpy_fallback(inner)(a, [b, 2], True, key=k)


def nested(x, pair, table):
    return {"sum": np.add(x, pair[0]), "rest": (np.multiply(pair[1], table["w"]), 1)}


def wrapped_nested(a, b, k):
    return numpy_fallback(nested)(a, (b, a), {"w": k})


def tabled(table, rest):
    return {"sum": np.add(table["x"], table["y"][0]), "rest": (np.multiply(table["x"], rest["w"]),)}


def wrapped_table(a, b, k):
    return numpy_fallback(tabled)({"x": a, "y": (b,)}, rest={"w": k})


def plain(n, key):
    return n + key


def wrapped_plain(n, key):
    return numpy_fallback(plain)(n, key=key)


def trapezoid(y, x, dx, axis):
    return uxpx.trapezoid(y, x=x, dx=dx, axis=axis)


def trapezoid_default(y, x):
    return uxpx.trapezoid(y, x)


def trapezoid_samples(y):
    return uxpx.trapezoid(y)


def trapezoid_spacing(y, dx):
    return uxpx.trapezoid(y, dx=dx)


def trapezoid_axis(y, x, axis):
    return uxpx.trapezoid(y, x, axis=axis)


def interp(x, x_points, y_points, left, right, period):
    return uxpx.interp(x, x_points, y_points, left=left, right=right, period=period)


def interp_default(x, x_points, y_points):
    return uxpx.interp(x, x_points, y_points)


def interp_left(x, x_points, y_points, left):
    return uxpx.interp(x, x_points, y_points, left=left)


def interp_right(x, x_points, y_points, right):
    return uxpx.interp(x, x_points, y_points, right=right)


def interp_period(x, x_points, y_points, period):
    return uxpx.interp(x, x_points, y_points, period=period)


def interp_sides(x, x_points, y_points):
    return uxpx.interp(x, x_points, y_points, left=0.0, right=0.0)


def gradient(f):
    return uxpx.gradient(f)


def lstsq(a, b, rcond):
    return uxpx.linalg_lstsq(a, b, rcond=rcond)


def lstsq_default(a, b):
    return uxpx.linalg_lstsq(a, b)


def einsum(subscripts, a, b):
    return uxpx.einsum(subscripts, a, b)


def einsum_one(subscripts, a):
    return uxpx.einsum(subscripts, a)


def along(func, a, b, axis, arr):
    return uxpx.apply_along_axis(func, (a, b), axis, arr)


def along_options(func, a, b, axis, arr, more, left):
    return uxpx.apply_along_axis(func, (a, b), axis, arr, more, left=left)


def radians(a):
    return uxpx.radians(a)


def degrees(a):
    return uxpx.degrees(a)


def ndindex(shape, xp):
    return uxpx.ndindex(shape, xp=xp)


def tril(n, xp):
    return uxpx.tril_indices(n, xp=xp)


def tril_options(n, k, m, xp):
    return uxpx.tril_indices(n, k=k, m=m, xp=xp)


def tril_offset(n, k, xp):
    return uxpx.tril_indices(n, k=k, xp=xp)


def vectorize(f, a, xp):
    return uxpx.vectorize(f, otypes=(float,), xp=xp)(a)


def draw_random(rng, xp, size):
    return glass.rng.Generator(rng=rng, xp=xp).random(size)


def draw_normal(rng, xp, loc, scale, size):
    return glass.rng.Generator(rng=rng, xp=xp).normal(loc, scale, size)


def draw_normal_default(rng, xp, size):
    return glass.rng.Generator(rng=rng, xp=xp).normal(size=size)


def draw_poisson(rng, xp, lam, size):
    return glass.rng.Generator(rng=rng, xp=xp).poisson(lam, size)


def draw_standard_normal(rng, xp, size):
    return glass.rng.Generator(rng=rng, xp=xp).standard_normal(size)


def draw_uniform(rng, xp, low, high, size):
    return glass.rng.Generator(rng=rng, xp=xp).uniform(low, high, size)


def draw_uniform_default(rng, xp, size):
    return glass.rng.Generator(rng=rng, xp=xp).uniform(size=size)


def draw_multinomial(rng, xp, n, pvals, size):
    return glass.rng.Generator(rng=rng, xp=xp).multinomial(n, pvals, size)


def key_random(key, size, dtype):
    return glass.jax.Generator.from_key(key).random(size, dtype)


def key_normal(key, loc, scale, size, dtype):
    return glass.jax.Generator.from_key(key).normal(loc, scale, size, dtype)


def key_normal_default(key, size):
    return glass.jax.Generator.from_key(key).normal(size=size)


def key_poisson(key, lam, size, dtype):
    return glass.jax.Generator.from_key(key).poisson(lam, size, dtype)


def key_standard_normal(key, size, dtype):
    return glass.jax.Generator.from_key(key).standard_normal(size, dtype)


def key_uniform(key, low, high, size, dtype):
    return glass.jax.Generator.from_key(key).uniform(low, high, size, dtype)


def key_uniform_default(key, size):
    return glass.jax.Generator.from_key(key).uniform(size=size)


def key_multinomial(key, n, pvals, size, dtype):
    return glass.jax.Generator.from_key(key).multinomial(n, pvals, size, dtype)


# ------------------------------------------------------------- HEALPix functions
def alm2map(alms, nside, inplace, lmax, pixwin, pol):
    return glass.healpix.alm2map(alms, nside, inplace=inplace, lmax=lmax, pixwin=pixwin, pol=pol)


def alm2map_default(alms, nside):
    return glass.healpix.alm2map(alms, nside)


def alm2map_spin(alms, nside, spin, lmax):
    return glass.healpix.alm2map_spin(alms, nside, spin, lmax)


def almxfl(alm, fl, inplace):
    return glass.healpix.almxfl(alm, fl, inplace=inplace)


def almxfl_default(alm, fl):
    return glass.healpix.almxfl(alm, fl)


def ang2pix(nside, theta, phi, lonlat):
    return glass.healpix.ang2pix(nside, theta, phi, lonlat=lonlat)


def ang2pix_default(nside, theta, phi):
    return glass.healpix.ang2pix(nside, theta, phi)


def ang2vec(theta, phi, lonlat):
    return glass.healpix.ang2vec(theta, phi, lonlat=lonlat)


def map2alm(maps, lmax, pol, use_pixel_weights):
    return glass.healpix.map2alm(maps, lmax=lmax, pol=pol, use_pixel_weights=use_pixel_weights)


def map2alm_default(maps):
    return glass.healpix.map2alm(maps)


def pixwin(nside, lmax, pol, xp):
    return glass.healpix.pixwin(nside, lmax=lmax, pol=pol, xp=xp)


def pixwin_default(nside, xp):
    return glass.healpix.pixwin(nside, xp=xp)


def get_nside(m):
    return glass.healpix.get_nside(m)


def npix2nside(npix):
    return glass.healpix.npix2nside(npix)


def nside2npix(nside):
    return glass.healpix.nside2npix(nside)


def query_strip(nside, low, high, xp):
    return glass.healpix.query_strip(nside, (low, high), xp=xp)


def randang(nside, ipix, lonlat, rng):
    return glass.healpix.randang(nside, ipix, lonlat=lonlat, rng=rng)
