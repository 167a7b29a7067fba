"""Redshift distributions, bins and weights follow their documented formulas.

Every public function is evaluated symbolically on grids of a known number of samples whose values
are symbols in a known order; the elements of its result are compared as normal forms with those of
the documented formula, written in specs/formulas.py.  Interpolated positions that the order does
not place are tried in every cell of the grid.
"""

import itertools

from ..closed import COSMOLOGY, case

ASSUMPTIONS = [
    "Numbers are real and exact; expressions are compared at points where no denominator or logarithm vanishes.",
    "Sizes of arrays are those enumerated; contents are arbitrary.",
    "Cosmology objects return the same number for the same argument.",
]


def check(c):
    for part in (distributions, weights, intervals, samples, cumulated):
        c.section(part, c)


def distributions(c):
    rule, q = "redshift distributions", "glass.observations:"
    for norm in (None, "given"):
        t = "normalised" if norm is None else "with norm"

        def more(z, **kw):
            return {"z": z.grid("z", range(3)), "norm": z.const(None) if norm is None else z.arr("norm"), **kw}
        case(c, rule, f"Gaussian distribution, {t}", q + "gaussian_nz", "gaussian", lambda z: more(z, mean=z.arr("mean"), sigma=z.arr("sigma")))
        case(c, rule, f"Gaussian distributions, {t}", q + "gaussian_nz", "gaussians", lambda z: more(z, mean=z.arr("mean", (2,)), sigma=z.arr("sigma", (2,))))
        case(c, rule, f"Smail distribution, {t}", q + "smail_nz", "smail", lambda z: more(z, mode=z.arr("mode"), alpha=z.arr("alpha"), beta=z.arr("beta")))
        case(c, rule, f"Smail distributions, {t}", q + "smail_nz", "smails",
             lambda z: more(z, mode=z.arr("mode", (2,)), alpha=z.arr("alpha", (2,)), beta=z.arr("beta", (2,))))
    case(c, rule, "photometric errors", q + "tomo_nz_gausserr", "tomography",
         lambda z: {"z": z.grid("z", range(3)), "nz": z.arr("nz", (3,)), "sigma": z.arr("sigma"), "edges": z.grid("edges", (0.5, 1.5, 2.5))})
    for cells in itertools.product((0, 1), repeat=2):
        def cell(k, n, cells=cells):
            return cells[k] if k < 2 else 0
        cell.__name__ = f"cells {cells[0]} and {cells[1]}"
        case(c, rule, "bins of equal density", q + "equal_dens_zbins", "equal_density", lambda z: {"z": z.grid("z", range(3)), "nz": z.arr("nz", (3,))}, cells=(cell,))


def weights(c):
    rule, q = "window weights", "glass.shells:"
    for kind in ("distance", "volume", "density"):
        case(c, rule, f"{kind} weight", f"{q}{kind.capitalize()}Weight.__call__", f"{kind}_weight", lambda z: {"z": z.arr("z")}, **COSMOLOGY)
    for n in (2, 3):
        case(c, rule, f"effective redshift, {n} samples", q + "RadialWindow", "effective_redshift", lambda z: {"za": z.grid("za", range(n)), "wa": z.arr("wa", (n,))})


def intervals(c):
    rule = "redshift intervals"

    def ends(z):
        return {"zmin": z.arr("zmin"), "zmax": z.arr("zmax")}
    case(c, rule, "bins of equal width", "glass.observations:fixed_zbins", "bins", ends)
    case(c, rule, "grid in redshift", "glass.shells:redshift_grid", "redshift_grid", ends)
    case(c, rule, "grid in distance", "glass.shells:distance_grid", "distance_grid", ends, **COSMOLOGY)


def samples(c):
    q = "glass.galaxies:"
    for cells in itertools.product((0, 1), repeat=2):
        def cell(k, n, cells=cells):
            return cells[k] if k < 2 else 0

        def third(k, n, cells=cells):
            return (*cells, 1 - cells[0])[k] if k < 3 else 0
        cell.__name__ = third.__name__ = f"cells {cells[0]} and {cells[1]}"
        case(c, "sampled redshifts", "inverse of the distribution", q + "redshifts_from_nz", "sampled", lambda z: {"z": z.grid("z", range(3)), "nz": z.arr("nz", (3,))}, cells=(cell,))
        for prog, shape, bins in (("sampled_bins", (2,), (4, 1)), ("sampled_column", (2, 1), (1, 4))):
            case(c, "sampled redshifts", f"one of each bin, shape {shape}", q + "redshifts_from_bins", prog,
                 lambda z: {"z": z.grid("z", range(3)), "n1": z.arr("n1", (3,)), "n2": z.arr("n2", (3,)), "bins": z.carr(shape, bins)}, cells=(cell,))
        case(c, "sampled redshifts", "one of each of three bins", q + "redshifts_from_bins", "sampled_three",
             lambda z: {"z": z.grid("z", range(3)), "n1": z.arr("n1", (3,)), "n2": z.arr("n2", (3,)), "n3": z.arr("n3", (3,)), "bins": z.carr((3,), (7, 1, 4))},
             cells=(third,))
        case(c, "sampled redshifts", "two populations", q + "redshifts_from_nz", "populations",
             lambda z: {"z": z.grid("z", range(3)), "nz": z.arr("nz", (2, 3)), "n": z.carr((2,), (1, 1))}, cells=(cell,))


def cumulated(c):
    rule = "integrals"
    for n in (2, 4):
        case(c, rule, f"cumulative integral, {n} samples", "glass.arraytools:cumulative_trapezoid", "cumulative", lambda z: {"z": z.grid("z", range(n)), "f": z.arr("f", (n,))})
        case(c, rule, f"cumulative integrals, {n} samples", "glass.arraytools:cumulative_trapezoid", "cumulatives",
             lambda z: {"z": z.grid("z", range(n)), "f": z.arr("f", (2, n))})
    case(c, "log-normal shift", "shift of a convergence field", "glass.fields:lognormal_shift_hilbert2011", "shift", lambda z: {"z": z.arr("z")})
