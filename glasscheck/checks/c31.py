"""Sampled positions and shapes are the documented functions of the random numbers.

Draws are replaced by symbols for standard uniform and normal numbers, in the order in which they
are drawn; expected counts handed to the Poisson draw, positions, photometric redshifts, axis
ratios and ellipticities are compared with the documented functions of these symbols.
"""

import itertools

from ..closed import case, generic

ASSUMPTIONS = [
    "Numbers are real and exact; expressions are compared at points where no denominator or logarithm vanishes.",
    "Sizes of arrays are those enumerated; contents are arbitrary.",
    "A value that is drawn again when it is out of range is accepted at the first draw.",
]


def check(c):
    for part in (density, photometric, shapes):
        c.section(part, c)


def density(c):
    rule, q = "galaxy density and positions", "glass.points:"
    case(c, rule, "linear bias", q + "linear_bias", "linear", lambda z: {"delta": z.arr("delta", (3,)), "b": z.arr("b")})
    case(c, rule, "log-linear bias", q + "loglinear_bias", "loglinear", lambda z: {"delta": z.arr("delta", (3,)), "b": z.arr("b")})
    for b, ref in ((None, None), ((2,), None), ((2, 3), "ref_weights_full")):
        case(c, rule, f"position weights, bias {b and 'of shape ' + str(b)}", q + "position_weights", "weights",
             lambda z: {"n": z.arr("n", (2, 3)), "b": z.const(None) if b is None else z.arr("b", b)}, ref=ref)
    for bias, vis, mono in itertools.product((False, True), repeat=3):
        case(c, rule, f"expected counts, {'with' if bias else 'no'} bias, {'with' if vis else 'no'} visibility, monopole {'removed' if mono else 'kept'}",
             q + "positions_from_delta", "counts",
             lambda z: {"ngal": z.arr("ngal"), "delta": z.arr("delta", (3,)), "b": z.arr("b") if bias else z.const(None), "vis": z.arr("vis", (3,)) if vis else z.const(None),
                        "mono": mono}, counts=lambda it, s: it.carrf(s, [0] * 3))
    case(c, rule, "uniform positions", q + "uniform_positions", "uniform", lambda z: {"ngal": z.arr("ngal")}, counts=lambda it, s: it.g.const(2))


def photometric(c):
    q = "glass.galaxies:"
    case(c, "sampled redshifts", "photometric redshifts", q + "gaussian_phz", "photometric", lambda z: {"z": z.arr("z", (2,)), "sigma": z.arr("sigma")})
    case(c, "sampled redshifts", "photometric redshifts with errors", q + "gaussian_phz", "photometric", lambda z: {"z": z.arr("z", (2,)), "sigma": z.arr("sigma", (2,))},
         ref="ref_photometrics")
    case(c, "sampled redshifts", "a photometric redshift", q + "gaussian_phz", "photometric_scalar", lambda z: {"z": z.arr("z"), "sigma": z.arr("sigma")})


def shapes(c):
    rule, q = "galaxy shapes", "glass.shapes:"
    case(c, rule, "projected axis ratio", q + "triaxial_axis_ratio", "axis_ratio", lambda z: {"zeta": z.arr("zeta", (2,)), "xi": z.arr("xi", (2,))})
    case(c, rule, "Ryden (2004)", q + "ellipticity_ryden04", "ryden", lambda z: {k: z.arr(k, (2,)) for k in ("mu", "sigma", "gamma", "sigma_gamma")})
    for n in ((1,), (2, 1)):
        case(c, rule, f"Gaussian, {n}", q + "ellipticity_gaussian", "gauss_shapes", lambda z: {"count": z.carr((len(n),), n), "sigma": z.arr("sigma", (len(n),))})
        case(c, rule, f"intrinsic normal, {n}", q + "ellipticity_intnorm", "norm_shapes", lambda z: {"count": z.carr((len(n),), n), "sigma": z.arr("sigma", (len(n),))},
             mk=generic)
    for given in (None, "varg", "vargamma"):
        case(c, rule, f"resampled, {given or 'no variance'} given", q + "resample_shapes", "resampled",
             lambda z: {"x": z.arr("x", (2,)), "y": z.arr("y", (2,))} | {k: z.arr(k) if k == given else z.const(None) for k in ("varg", "vargamma")})
