"""Linear transformations are exactly linear in their fields.

Every transformation is evaluated symbolically for a combination k x + y of two symbolic fields and
for each field on its own; the elements of the first result must be the same normal forms as k times
those of the second plus those of the third.  An offset, clipping, modulus or rounding, in any
element or for any sign, makes the forms differ.
"""

import itertools

from ..closed import COSMOLOGY, ORDERS, loc, two
from ..grids import agree, signed
from .c30 import pixels

ASSUMPTIONS = [
    "Numbers are real and exact; expressions are compared where no denominator vanishes.",
    "Sizes of arrays are those enumerated; contents and signs are arbitrary.",
    "Spherical harmonic transforms and unconstrained least-squares solutions are linear in their input, with coefficients that do not depend on it.",
    "Cosmology objects return the same number for the same argument.",
]


def check(c):
    for part in (planes, maps, galaxies, spectra, functions, points):
        c.section(part, c)


def case(c, rule, name, anchor, prog, bind, **kw):
    agree(c, rule, name, "linear", prog, f"ref_{prog}", bind, loc(c, anchor), mk=signed, **kw)


# ------------------------------------------------------------ linear maps with symbolic coefficients
def matrix(it, name, rows, x):
    """A matrix with symbolic coefficients times x along its first axis."""
    s = it.shape(x)
    if not s or not isinstance(s[0], int):
        return None
    m = it.g.mk("param", (), ("arg", name))
    m.meta = {"ann": None, "notnull": True, "default": None, "name": name, "shape": (rows, s[0])}
    sub = "ki,i->k" if len(s) == 1 else "ki,ij->kj"
    return it.call_node("xp.einsum", [it.g.const(sub), m, x], [])


def whole(n, default=None):
    return default if n is None or n.op == "const" and n.data is None else n.data if n.op == "const" and isinstance(n.data, int) else None


def harmonic(it, kw):
    n = whole(kw.get("lmax"))
    x = kw.get("maps")
    return (None, ()) if n is None or x is None else (matrix(it, "analysis", (n + 1) * (n + 2) // 2, x), None)


def scalar_map(it, kw):
    return matrix(it, "synthesis", 2, kw["alms"]), None


def spin_map(it, kw):
    xs = it.concrete_items(it.iter_value(kw["alms"])) if kw["alms"].op == "ref" else list(kw["alms"].args) if kw["alms"].op in ("tuple", "list") else None
    s = kw.get("spin")
    if xs is None or len(xs) != 2 or s is None or s.op != "const":
        return None, ()
    e, b = (it.freeze(x) for x in xs)
    out = []
    for part in "12":
        u, v = matrix(it, f"spin {s.data} E{part}", 2, e), matrix(it, f"spin {s.data} B{part}", 2, b)
        if None in (u, v):
            return None, ()
        out.append(it.binop("+", u, v))
    return it.g.tuple(out), None


def pixel_window(it, kw):
    n, pol = whole(kw.get("lmax"), 2), kw.get("pol")
    if n is None:
        return None, ()
    two = [it.g.mk("param", (), ("arg", f"{k} window")) for k in ("temperature", "polarisation")]
    for m, k in zip(two, ("temperature", "polarisation")):
        m.meta = {"ann": None, "notnull": True, "default": None, "name": f"{k} window", "shape": (n + 1,)}
    return (it.g.tuple(two) if pol is not None and pol.op == "const" and pol.data else two[0]), None


def solution(it, kw):
    s, t = it.shape(kw["a"]), it.shape(kw["b"])
    if s is None or t is None or len(s) != 2:
        return None, ()
    x = matrix(it, "solution", s[1], kw["b"])
    return (None, ()) if x is None else (it.g.tuple([x, *[it.g.const(None)] * 3]), None)


SKY = {"hp.map2alm": harmonic, "hp.pixwin": pixel_window, "hp.alm2map": scalar_map, "hp.alm2map_spin": spin_map, "hp.get_nside": lambda it, kw: (it.g.const(1), None)}


def planes(c):
    for n in (1, 2, 3, 4):
        def bind(z):
            for k in range(n):
                z.ranks[(f"z{k}",)] = k + 1
            return {name: z.tuple([z.arr(f"{name}{k}", (2,) if name in ("delta", "other") else ()) for k in range(n)]) for name in ("delta", "other", "zs", "ws")} | {
                "zs": z.tuple([z.arr(f"z{k}") for k in range(n)]), "k": z.arr("k")}
        case(c, "lensing", f"convergence of {n} planes", "glass.lensing:MultiPlaneConvergence.add_plane", "convergence", bind, **COSMOLOGY)


def maps(c):
    q = "glass.lensing:"
    for lmax, disc in itertools.product((None, 1), (True, False)):
        t = f"lmax={lmax}, {'with' if disc else 'without'} pixel windows"

        def bind(z, **kw):
            return {"x": z.arr("x", (2,)), "y": z.arr("y", (2,)), "k": z.arr("k"), "lmax": lmax, "discretized": disc, **kw}
        for flags in itertools.product((False, True), repeat=3):
            if any(flags):
                n = [k for k, f in zip(("potential", "deflection", "shear"), flags) if f]
                case(c, "lensing", f"{', '.join(n)} from convergence, {t}", q + "from_convergence", "maps", lambda z: bind(z, p=flags[0], d=flags[1], s=flags[2]), records=SKY)
        case(c, "lensing", f"shear from convergence, {t}", q + "shear_from_convergence", "shear", bind, records=SKY)


def galaxies(c):
    case(c, "lensing", "galaxy shears that are not reduced", "glass.galaxies:galaxy_shear", "galaxies",
         lambda z: {k: z.arr(k, (3,)) for k in ("lon", "lat", "x", "y")} | {k: z.arr(k, (12,)) for k in ("kappa", "g1", "g2", "h1", "h2")} | {"k": z.arr("k")},
         records={"hp.ang2pix": lambda it, kw: (pixels(it, kw)[0], None), "hp.npix2nside": lambda it, kw: (it.g.const(1), None)})


def spectra(c):
    q = "glass.fields:"

    def six(z, **kw):
        return {k: z.arr(k, (3,)) for k in "abcdef"} | {"k": z.arr("k"), **kw}
    for lmax in (None, 1, 4):
        case(c, "spectra", f"discretised spectra, lmax={lmax}", q + "discretized_cls", "discretized", lambda z: six(z, lmax=lmax), records=SKY)
        for given in (False, True):
            case(c, "spectra", f"effective spectra, {'two sets of' if given else 'the same'} weights, lmax={lmax}", q + "effective_cls", "effective",
                 lambda z: six(z, lmax=lmax, v=z.arr("v", (2,)), w=z.arr("w", (2,)) if given else z.const(None)))
    for s in ((2,), (2, 2)):
        case(c, "spectra", f"effective spectra, weights of shape {s}", q + "effective_cls", "effective_weights",
             lambda z: {k: z.arr(k, (3,)) for k in "abc"} | {k: z.arr(k, s) for k in "vuw"} | {"k": z.arr("k")})
        case(c, "spectra", f"effective spectra, second weights of shape {s}", q + "effective_cls", "effective_weights2",
             lambda z: {k: z.arr(k, (3,)) for k in "abc"} | {k: z.arr(k, s) for k in "vuw"} | {"k": z.arr("k")})
    for n in (1, 3):
        m = n * (n + 1) // 2
        case(c, "spectra", f"coefficients up to {n - 1}", "glass.harmonics:multalm", "filtered", lambda z: {"x": z.arr("x", (m,)), "y": z.arr("y", (m,)), "k": z.arr("k"), "bl": z.arr("bl", (n,))})
        case(c, "spectra", f"filters up to {n - 1}", "glass.harmonics:multalm", "filters", lambda z: {"x": z.arr("x", (n,)), "y": z.arr("y", (n,)), "k": z.arr("k"), "alm": z.arr("alm", (m,))})


def functions(c):
    q, rule = "glass.shells:", "functions of redshift"

    def bind(z, o, drop="", **kw):
        return {k: v for k, v in two(z, o).items() if k not in drop.split()} | {"g": z.arr("g", (len(o[0]),)), "k": z.arr("k"), **kw}
    for o in ORDERS:
        t = f"order {o[0]} and {o[1]}"
        case(c, rule, f"restricted functions, {t}", q + "restrict", "restricted", lambda z: bind(z, o, "zb wb"))
        if not (o[0][0] > o[1][-1] or o[0][-1] < o[1][0]):
            for prog in ("product", "product2"):
                case(c, rule, f"integral of a product, {prog[7:] or '1'}, {t}", "glass.arraytools:trapezoid_product", prog, lambda z: bind(z, o, "zb wb"))
            case(c, rule, f"effective bias, {t}", "glass.points:effective_bias", "effective_bias", lambda z: bind(z, o, "zb wb"))
        t = f"order {o}"
        case(c, rule, f"partition by restriction, {t}", q + "partition_restrict", "parts", lambda z: bind(z, o, method="restrict"))
        case(c, rule, f"combined windows, {t}", q + "combine", "combined", lambda z: {k: v for k, v in bind(z, o, "f").items() if k != "g"} | {"x": z.arr("x", (2,)), "y": z.arr("y", (2,))})
    for o in ORDERS[:4]:
        case(c, rule, f"partition by least squares, order {o}", q + "partition_lstsq", "parts", lambda z: bind(z, o, method="lstsq"), records={"lstsq": solution})
    for n in (2, 4):
        case(c, rule, f"cumulative integral, {n} samples", "glass.arraytools:cumulative_trapezoid", "cumulative",
             lambda z: {"z": z.grid("z", range(n)), "f": z.arr("f", (n,)), "g": z.arr("g", (n,)), "k": z.arr("k")})


def points(c):
    q = "glass.points:"
    case(c, "bias", "linear bias of fields", q + "linear_bias", "biased", lambda z: {"x": z.arr("x", (3,)), "y": z.arr("y", (3,)), "k": z.arr("k"), "b": z.arr("b")})
    case(c, "bias", "linear bias of biases", q + "linear_bias", "biases", lambda z: {"x": z.arr("x"), "y": z.arr("y"), "k": z.arr("k"), "delta": z.arr("delta", (3,))})
    case(c, "bias", "position weights of biases", q + "position_weights", "weights", lambda z: {"n": z.arr("n", (2, 3)), "x": z.arr("x", (2,)), "y": z.arr("y", (2,)), "k": z.arr("k")})
