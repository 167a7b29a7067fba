"""Quantities defined up to normalisation are normalised away.

Every function is evaluated symbolically twice on grids of a known number of samples: once with a
distribution, window, density or cosmology multiplied by a symbol, once without.  The elements of
both results must be the same normal forms, so that the symbol cancels.
"""

import itertools

from ..closed import COSMOLOGY, ORDERS, generic, loc, one, two
from ..grids import agree
from .c29 import nonnegative, solution, triangle
from .c30 import planes

ASSUMPTIONS = [
    "Numbers are real and exact, constants are positive; expressions are compared where no denominator vanishes.",
    "Sizes of arrays are those enumerated; contents are arbitrary.",
    "Cosmology objects return the same number for the same argument.",
    "Least-squares solvers and factorisations are independent quantities of their compared arguments.",
]


def check(c):
    for part in (distributions, windows, shares, weights, distances):
        c.section(part, c)


def case(c, rule, name, anchor, prog, bind, **kw):
    def wide(z):
        z.wide = {"k", "q"}
        return bind(z)
    agree(c, rule, name, "scales", prog, f"ref_{prog}", wide, loc(c, anchor), **kw)


def distributions(c):
    rule = "multiples of a distribution"

    def bind(z):
        return {"z": z.grid("z", range(3)), "nz": z.arr("nz", (3,)), "k": z.arr("k")}
    for cells in itertools.product((0, 1), repeat=2):
        def cell(k, n, cells=cells):
            return cells[k % 2] if k < 3 else None
        cell.__name__ = f"cells {cells[0]} and {cells[1]}"
        case(c, rule, "sampled redshifts", "glass.galaxies:redshifts_from_nz", "sampled", bind, cells=(cell,))
        case(c, rule, "redshifts sampled from a window", "glass.galaxies:redshifts", "sampled_window", bind, cells=(cell,))
        case(c, rule, "bins of equal density", "glass.observations:equal_dens_zbins", "equal_density", bind, cells=(cell,))
        case(c, rule, "redshifts sampled from bins", "glass.galaxies:redshifts_from_bins", "sampled_bins",
             lambda z: {"z": z.grid("z", range(3)), "n1": z.arr("n1", (3,)), "n2": z.arr("n2", (3,)), "k": z.arr("k"), "q": z.arr("q"), "bins": z.carr((3,), (4, 1, 4))}, cells=(cell,))
    case(c, "multiples of a window", "effective redshift", "glass.shells:RadialWindow", "effective_redshift", bind)


def scaled(z, o, *names):
    return {k: v for k, v in two(z, o).items()} | {k: z.arr(k) for k in names}


def windows(c):
    rule = "multiples of a window"
    for o in ORDERS:
        t = f"order {o[0]} and {o[1]}"
        if not (o[0][0] > o[1][-1] or o[0][-1] < o[1][0]):
            case(c, rule, f"effective bias, {t}", "glass.points:effective_bias", "bias", lambda z: one(z, o) | {"k": z.arr("k")})
        t = f"order {o}"
        case(c, rule, f"combined windows, {t}", "glass.shells:combine", "combined", lambda z: {k: v for k, v in scaled(z, o, "k", "q").items() if k != "f"} | {"x": z.arr("x", (2,))})
        case(c, rule, f"shares of windows, {t}", "glass.shells:distribute", "shares", lambda z: {k: v for k, v in scaled(z, o, "k").items() if k != "f"}, mk=generic)


def shares(c):
    rule = "multiples of a window"
    for o in ORDERS[:4]:
        case(c, rule, f"least squares, order {o}", "glass.shells:partition_lstsq", "parts", lambda z: scaled(z, o, "k", "q") | {"method": "lstsq"}, records={"lstsq": solution})
        case(c, rule, f"non-negative least squares, order {o}", "glass.shells:partition_nnls", "parts", lambda z: scaled(z, o, "k", "q") | {"method": "nnls"},
             records={"qr": triangle, "nnls": nonnegative}, opaque={"glass.algorithm:nnls"})


def weights(c):
    rule = "multiples of a density"
    for n, b in itertools.product(((2,), (2, 3)), (None, (2,))):
        case(c, rule, f"position weights of shape {n}, {'with' if b else 'no'} bias", "glass.points:position_weights", "weights",
             lambda z: {"n": z.arr("n", n), "b": z.const(None) if b is None else z.arr("b", b), "k": z.arr("k")})
    for n in ((3,), (3, 2)):
        case(c, rule, f"lensing weights of shape {n}", "glass.lensing:multi_plane_weights", "plane_weights",
             lambda z: {"w": z.arr("w", n), "shells": z.tuple([z.arr(f"shell{k}") for k in range(3)]), "k": z.arr("k")},
             opaque={"glass.lensing:multi_plane_matrix"}, records={"multi_plane_matrix": planes})

    def shells(z):
        z.ranks.update({("ze",): 1, ("zf",): 4})
        return {"za": z.grid("za", (0, 2, 3)), "wa": z.arr("wa", (3,)), "ze": z.arr("ze"), "zb": z.grid("zb", (2, 3, 5)), "wb": z.arr("wb", (3,)), "zf": z.arr("zf"),
                "k": z.arr("k"), "q": z.arr("q")}
    case(c, "multiples of a window", "matrix of windows", "glass.lensing:multi_plane_matrix", "matrix", shells, **COSMOLOGY)


def distances(c):
    rule = "units of distance"
    for kind in ("volume", "density"):
        case(c, rule, f"{kind} weight", f"glass.shells:{kind.capitalize()}Weight.__call__", f"{kind}_weight", lambda z: {"z": z.arr("z"), "k": z.arr("k")}, **COSMOLOGY)
    for n in (2, 3, 4):
        def bind(z):
            for k in range(n):
                z.ranks[(f"z{k}",)] = k + 1
            return {"delta": z.tuple([z.arr(f"delta{k}", (2,)) for k in range(n)]), "zs": z.tuple([z.arr(f"z{k}") for k in range(n)]),
                    "ws": z.tuple([z.arr(f"w{k}") for k in range(n)]), "k": z.arr("k")}
        case(c, rule, f"convergence of {n} planes", "glass.lensing:MultiPlaneConvergence.add_plane", "convergence", bind, **COSMOLOGY)
