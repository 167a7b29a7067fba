"""Shorthands next to the general functions they stand for; analysed, never run."""
import glass.fields
import glass.galaxies
import glass.grf
import glass.harmonics
import glass.lensing
import glass.shells
from glass.healpix import alm2map_spin, almxfl


def redshifts(n, w, rng):
    return glass.galaxies.redshifts(n, w, rng=rng)


def ref_redshifts(n, w, rng):
    return glass.galaxies.redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)


def part_default(z, fz, shells):
    return glass.shells.partition(z, fz, shells)


def part_nnls(z, fz, shells):
    return glass.shells.partition(z, fz, shells, method="nnls")


def ref_part_nnls(z, fz, shells):
    return glass.shells.partition_nnls(z, fz, shells)


def part_lstsq(z, fz, shells):
    return glass.shells.partition(z, fz, shells, method="lstsq")


def ref_part_lstsq(z, fz, shells):
    return glass.shells.partition_lstsq(z, fz, shells)


def part_restrict(z, fz, shells):
    return glass.shells.partition(z, fz, shells, method="restrict")


def ref_part_restrict(z, fz, shells):
    return glass.shells.partition_restrict(z, fz, shells)


def lognormal_gls(cls, shift):
    return glass.fields.lognormal_gls(cls, shift)


def ref_lognormal_gls(cls, shift):
    n = glass.fields.nfields_from_nspectra(len(cls))
    return glass.fields.solve_gaussian_spectra([glass.grf.Lognormal(shift) for _ in range(n)], cls)


def generate_gaussian(gls, nside, ncorr, rng):
    return list(glass.fields.generate_gaussian(gls, nside, ncorr=ncorr, rng=rng))


def gen_gaussian(gls, nside, ncorr, rng):
    n = glass.fields.nfields_from_nspectra(len(gls))
    yield from glass.fields.generate([glass.grf.Normal() for _ in range(n)], gls, nside, ncorr=ncorr, rng=rng)


def generate_lognormal(gls, nside, shift, ncorr, rng):
    return list(glass.fields.generate_lognormal(gls, nside, shift, ncorr=ncorr, rng=rng))


def gen_lognormal(gls, nside, shift, ncorr, rng):
    n = glass.fields.nfields_from_nspectra(len(gls))
    yield from glass.fields.generate([glass.grf.Lognormal(shift) for _ in range(n)], gls, nside, ncorr=ncorr, rng=rng)


def shear(kappa, lmax, discretized):
    a = glass.lensing.shear_from_convergence(kappa, lmax, discretized=discretized)
    return a[0] + 1j * a[1]


def ref_shear(kappa, lmax, discretized):
    (g,) = glass.lensing.from_convergence(kappa, lmax, shear=True, discretized=discretized)
    return g


def unpack(a, b, z):
    za, wa, zeff = glass.shells.RadialWindow(a, b, z)
    return za, wa, zeff


def ref_unpack(a, b, z):
    return a, b, z


def ref_generate_gaussian(gls, nside, ncorr, rng):
    return list(gen_gaussian(gls, nside, ncorr, rng))


def ref_generate_lognormal(gls, nside, shift, ncorr, rng):
    return list(gen_lognormal(gls, nside, shift, ncorr, rng))


# ------------------------------------------------------------- arrays of known size
def pair(za, wa, zb, wb, swap):
    a, b = glass.shells.RadialWindow(za, wa, 0.5), glass.shells.RadialWindow(zb, wb, 1.5)
    return [b, a] if swap else [a, b]


def named(z, f, za, wa, zb, wb, swap, method):
    return glass.shells.partition(z, f, pair(za, wa, zb, wb, swap), **({} if method is None else {"method": method}))


def ref_named(z, f, za, wa, zb, wb, swap, method):
    w = pair(za, wa, zb, wb, swap)
    if method == "lstsq":
        return glass.shells.partition_lstsq(z, f, w)
    if method == "restrict":
        return glass.shells.partition_restrict(z, f, w)
    return glass.shells.partition_nnls(z, f, w)


def sampled(n, za, wa, ze, rng):
    return glass.galaxies.redshifts(n, glass.shells.RadialWindow(za, wa, ze), rng=rng)


def ref_sampled(n, za, wa, ze, rng):
    return glass.galaxies.redshifts_from_nz(n, za, wa, rng=rng, warn=False)


# ------------------------------------------------------------- fields for shells
def shells_of(zeffs):
    return [glass.shells.RadialWindow([0.0, z, 2 * z], [0.0, 1.0, 0.0], z) for z in zeffs]


def transformed(fields, x, var):
    return [f(y, v) for f, y, v in zip(fields, x, var, strict=True)]


def gaussian_shells(zeffs, x, var):
    return transformed(glass.fields.gaussian_fields(shells_of(zeffs)), x, var)


def ref_gaussian_shells(zeffs, x, var):
    return [glass.grf.Normal()(y, v) for y, v in zip(x, var)]


def lognormal_shells(zeffs, x, var, a, b, given):
    fields = glass.fields.lognormal_fields(shells_of(zeffs), lambda z: a + b * z) if given else glass.fields.lognormal_fields(shells_of(zeffs))
    return transformed(fields, x, var)


def ref_lognormal_shells(zeffs, x, var, a, b, given):
    return [glass.grf.Lognormal(a + b * z if given else 1.0)(y, v) for z, y, v in zip(zeffs, x, var)]
