"""Calls with linear combinations of fields, and combinations of calls; analysed, never run."""
import glass.arraytools
import glass.fields
import glass.galaxies
import glass.harmonics
import glass.lensing
import glass.points
import glass.shells


def mixed(k, a, b):
    return [k * x + y for x, y in zip(a, b)]


# -------------------------------------------------------------------------- lensing
def added(cosmo, delta, zs, ws):
    mp = glass.lensing.MultiPlaneConvergence(cosmo)
    for d, z, w in zip(delta, zs, ws):
        mp.add_plane(d, z, w)
    return mp.kappa


def convergence(cosmo, delta, other, zs, ws, k):
    return added(cosmo, [k * d + e for d, e in zip(delta, other)], zs, ws)


def ref_convergence(cosmo, delta, other, zs, ws, k):
    return k * added(cosmo, delta, zs, ws) + added(cosmo, other, zs, ws)


def maps(x, y, k, lmax, discretized, p, d, s):
    return glass.lensing.from_convergence(k * x + y, lmax, potential=p, deflection=d, shear=s, discretized=discretized)


def ref_maps(x, y, k, lmax, discretized, p, d, s):
    a = glass.lensing.from_convergence(x, lmax, potential=p, deflection=d, shear=s, discretized=discretized)
    b = glass.lensing.from_convergence(y, lmax, potential=p, deflection=d, shear=s, discretized=discretized)
    return mixed(k, a, b)


def shear(x, y, k, lmax, discretized):
    return glass.lensing.shear_from_convergence(k * x + y, lmax, discretized=discretized)


def ref_shear(x, y, k, lmax, discretized):
    a = glass.lensing.shear_from_convergence(x, lmax, discretized=discretized)
    b = glass.lensing.shear_from_convergence(y, lmax, discretized=discretized)
    return mixed(k, a, b)


def galaxies(lon, lat, x, y, k, kappa, g1, g2, h1, h2):
    return glass.galaxies.galaxy_shear(lon, lat, k * x + y, kappa, k * g1 + h1, k * g2 + h2, reduced_shear=False)


def ref_galaxies(lon, lat, x, y, k, kappa, g1, g2, h1, h2):
    a = glass.galaxies.galaxy_shear(lon, lat, x, kappa, g1, g2, reduced_shear=False)
    b = glass.galaxies.galaxy_shear(lon, lat, y, kappa, h1, h2, reduced_shear=False)
    return k * a + b


# -------------------------------------------------------------------------- spectra
def effective(a, b, c, d, e, f, v, w, k, lmax):
    return glass.fields.effective_cls([k * a + d, k * b + e, k * c + f], v, w, lmax=lmax)


def ref_effective(a, b, c, d, e, f, v, w, k, lmax):
    return k * glass.fields.effective_cls([a, b, c], v, w, lmax=lmax) + glass.fields.effective_cls([d, e, f], v, w, lmax=lmax)


def effective_weights(a, b, c, v, u, w, k):
    return glass.fields.effective_cls([a, b, c], k * v + u, w)


def ref_effective_weights(a, b, c, v, u, w, k):
    return k * glass.fields.effective_cls([a, b, c], v, w) + glass.fields.effective_cls([a, b, c], u, w)


def effective_weights2(a, b, c, v, u, w, k):
    return glass.fields.effective_cls([a, b, c], w, k * v + u)


def ref_effective_weights2(a, b, c, v, u, w, k):
    return k * glass.fields.effective_cls([a, b, c], w, v) + glass.fields.effective_cls([a, b, c], w, u)


def discretized(a, b, c, d, e, f, k, lmax):
    return glass.fields.discretized_cls([k * a + d, k * b + e, k * c + f], lmax=lmax, nside=1)


def ref_discretized(a, b, c, d, e, f, k, lmax):
    return mixed(k, glass.fields.discretized_cls([a, b, c], lmax=lmax, nside=1), glass.fields.discretized_cls([d, e, f], lmax=lmax, nside=1))


def filtered(x, y, k, bl):
    return glass.harmonics.multalm(k * x + y, bl)


def ref_filtered(x, y, k, bl):
    return k * glass.harmonics.multalm(x, bl) + glass.harmonics.multalm(y, bl)


def filters(alm, x, y, k):
    return glass.harmonics.multalm(alm, k * x + y)


def ref_filters(alm, x, y, k):
    return k * glass.harmonics.multalm(alm, x) + glass.harmonics.multalm(alm, y)


# ------------------------------------------------------------- functions of redshift
def restricted(z, f, g, k, za, wa):
    return glass.shells.restrict(z, k * f + g, glass.shells.RadialWindow(za, wa, 0.5))[1]


def ref_restricted(z, f, g, k, za, wa):
    w = glass.shells.RadialWindow(za, wa, 0.5)
    return k * glass.shells.restrict(z, f, w)[1] + glass.shells.restrict(z, g, w)[1]


def parts(z, f, g, k, za, wa, zb, wb, method):
    ws = [glass.shells.RadialWindow(za, wa, 0.5), glass.shells.RadialWindow(zb, wb, 1.5)]
    return glass.shells.partition(z, k * f + g, ws, method=method)


def ref_parts(z, f, g, k, za, wa, zb, wb, method):
    ws = [glass.shells.RadialWindow(za, wa, 0.5), glass.shells.RadialWindow(zb, wb, 1.5)]
    return k * glass.shells.partition(z, f, ws, method=method) + glass.shells.partition(z, g, ws, method=method)


def combined(z, x, y, k, za, wa, zb, wb):
    ws = [glass.shells.RadialWindow(za, wa, 0.5), glass.shells.RadialWindow(zb, wb, 1.5)]
    return glass.shells.combine(z, k * x + y, ws)


def ref_combined(z, x, y, k, za, wa, zb, wb):
    ws = [glass.shells.RadialWindow(za, wa, 0.5), glass.shells.RadialWindow(zb, wb, 1.5)]
    return k * glass.shells.combine(z, x, ws) + glass.shells.combine(z, y, ws)


def product(z, f, g, k, za, wa):
    return glass.arraytools.trapezoid_product((z, k * f + g), (za, wa))


def ref_product(z, f, g, k, za, wa):
    return k * glass.arraytools.trapezoid_product((z, f), (za, wa)) + glass.arraytools.trapezoid_product((z, g), (za, wa))


def product2(z, f, g, k, za, wa):
    return glass.arraytools.trapezoid_product((za, wa), (z, k * f + g))


def ref_product2(z, f, g, k, za, wa):
    return k * glass.arraytools.trapezoid_product((za, wa), (z, f)) + glass.arraytools.trapezoid_product((za, wa), (z, g))


def cumulative(z, f, g, k):
    return glass.arraytools.cumulative_trapezoid(k * f + g, z)


def ref_cumulative(z, f, g, k):
    return k * glass.arraytools.cumulative_trapezoid(f, z) + glass.arraytools.cumulative_trapezoid(g, z)


# ---------------------------------------------------------------------------- points
def biased(x, y, k, b):
    return glass.points.linear_bias(k * x + y, b)


def ref_biased(x, y, k, b):
    return k * glass.points.linear_bias(x, b) + glass.points.linear_bias(y, b)


def biases(delta, x, y, k):
    return glass.points.linear_bias(delta, k * x + y)


def ref_biases(delta, x, y, k):
    return k * glass.points.linear_bias(delta, x) + glass.points.linear_bias(delta, y)


def effective_bias(z, f, g, k, za, wa):
    return glass.points.effective_bias(z, k * f + g, glass.shells.RadialWindow(za, wa, 0.5))


def ref_effective_bias(z, f, g, k, za, wa):
    w = glass.shells.RadialWindow(za, wa, 0.5)
    return k * glass.points.effective_bias(z, f, w) + glass.points.effective_bias(z, g, w)


def weights(n, x, y, k):
    return glass.points.position_weights(n, k * x + y)


def ref_weights(n, x, y, k):
    return k * glass.points.position_weights(n, x) + glass.points.position_weights(n, y)
