"""Obligations that public functions give the documented formulas (see specs/formulas.py)."""

from .grids import agree, generic  # noqa: F401




def loc(c, q):
    f = c.project.find_func(q)
    return (f[0].rel, f[2].lineno, q.partition(":")[2]) if f else None


def case(c, rule, name, anchor, prog, bind, ref=None, **kw):
    agree(c, rule, name, "formulas", prog, ref or f"ref_{prog}", bind, loc(c, anchor), **kw)


COSMOLOGY = {"methods": {"H_over_H0", "transverse_comoving_distance", "Omega_m", "growth_factor", "comoving_distance", "inv_comoving_distance"},
             "attrs": {"hubble_distance", "critical_density0", "h", "Omega_m0"}}
# places of the samples of a function, and of two windows, in the common order
ORDERS = [((0, 1, 2, 3), (0, 1, 2), (1, 2, 3)), ((0, 2, 4), (0, 1, 3), (1, 3, 4)), ((0, 5), (1, 2), (2, 3)), ((2, 3), (0, 1, 4), (1, 4, 6)),
          ((1, 2), (0, 3), (3, 4)), ((0, 1), (2, 3, 4), (3, 4, 5)), ((1, 4, 6), (0, 2, 5), (2, 5, 7))]


def two(z, o, f="f", **kw):
    a, b, d = o
    return {"z": z.grid("z", a), f: z.arr(f, (len(a),)), "za": z.grid("za", b), "wa": z.arr("wa", (len(b),)), "zb": z.grid("zb", d), "wb": z.arr("wb", (len(d),)), **kw}


def one(z, o, f="f", **kw):
    return {k: v for k, v in two(z, o, f, **kw).items() if k not in ("zb", "wb")}
