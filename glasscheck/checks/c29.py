"""Functions of redshift are divided among shells as documented.

Functions and windows are given on grids with every relevant order of samples: interleaved, nested,
disjoint, with windows beyond the function on either side and shared samples.  Restrictions,
products, partitions (the problem handed to the solver, and how its solution is returned),
combinations and shares are compared element by element with the documented definitions.
"""

from ..closed import ORDERS, case, generic, one, two

ASSUMPTIONS = [
    "Numbers are real and exact; expressions are compared at points where no denominator or logarithm vanishes.",
    "Sizes of arrays are those enumerated; contents are arbitrary.",
    "Least-squares solvers and factorisations are independent quantities of their compared arguments.",
]


def check(c):
    for part in (restriction, partition, labels, integrals):
        c.section(part, c)


def restriction(c):
    rule, q = "restricted functions", "glass.shells:"
    for o in ORDERS:
        t = f"order {o[0]} and {o[1]}"
        case(c, rule, t, q + "restrict", "restricted", lambda z: one(z, o))
        case(c, rule, t + ", two functions", q + "restrict", "restricted2", lambda z: one(z, o) | {"f": z.arr("f", (2, len(o[0])))})
        case(c, "partition by restriction", f"order {o}", q + "partition_restrict", "parts_restrict", lambda z: two(z, o))


def solution(it, kw):
    s, t = it.shape(kw["a"]), it.shape(kw["b"])
    if s is None or t is None or len(s) != 2:
        return None, ()
    return it.g.tuple([it.result_of("lstsq", (s[1], *t[1:])), *[it.g.const(None)] * 3]), ("a", "b")


def triangle(it, kw):
    x = next(iter(kw.values()))
    s = it.shape(x)
    if s is None or len(s) != 2 or s[0] < s[1]:
        return None, ()
    return it.g.tuple([it.result_of("q", s), it.result_of("r", (s[1], s[1]))]), tuple(kw)[:1]


def nonnegative(it, kw):
    s = it.shape(kw["a"])
    return (None, ()) if s is None or len(s) != 2 else (it.result_of("nnls", s[1:]), ("a", "b"))


def partition(c):
    rule, q = "partition by least squares", "glass.shells:"
    for o in ORDERS[:4]:
        for d in ((), (2,)):
            t = f"order {o}" + (", two functions" if d else "")

            def bind(z):
                return two(z, o) | {"f": z.arr("f", (*d, len(o[0])))}
            case(c, rule, f"problem, {t}", q + "partition_lstsq", "parts_lstsq", bind, ref=None if not d else "ref_parts_lstsq2", records={"lstsq": solution})
            case(c, rule, f"non-negative problem, {t}", q + "partition_nnls", "parts_nnls", bind, ref=None if not d else "ref_parts_nnls2",
                 records={"qr": triangle, "nnls": nonnegative}, opaque={"glass.algorithm:nnls"})


def labels(c):
    rule, q = "sums and shares of windows", "glass.shells:"
    for o in ORDERS:
        case(c, rule, f"combined windows, order {o}", q + "combine", "combined", lambda z: {**{k: v for k, v in two(z, o).items() if k != "f"}, "x": z.arr("x", (2,))})
        case(c, rule, f"combined windows twice, order {o}", q + "combine", "combined2", lambda z: {**{k: v for k, v in two(z, o).items() if k != "f"}, "x": z.arr("x", (2, 2))})
        case(c, rule, f"shares of windows, order {o}", q + "distribute", "shares", lambda z: {k: v for k, v in two(z, o).items() if k != "f"}, mk=generic)


def integrals(c):
    rule = "integrals"
    for o in ORDERS:
        if o[0][0] > o[1][-1] or o[0][-1] < o[1][0]:
            continue
        t = f"order {o[0]} and {o[1]}"
        case(c, rule, f"integral of a product, {t}", "glass.arraytools:trapezoid_product", "product", lambda z: one(z, o, "b"))
        case(c, rule, f"effective bias, {t}", "glass.points:effective_bias", "bias", lambda z: one(z, o, "b"))
