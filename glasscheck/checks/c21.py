"""Numerical helpers give the same result for every array library.

Every helper is evaluated for NumPy, JAX and another library, with each optional argument given and
left out; the branch taken for a library is reduced to the operation it performs on the caller's
arguments (conversions between libraries removed, arguments matched to the operation's signature,
defaults dropped) and compared with the operation the helper stands for.  Results for other libraries
must end in a conversion back.  The conversion wrapper around NumPy-only functions is evaluated on
nested arguments, and random generators are compared method by method with the distribution asked for.
"""

import zlib

from ..fold import Config, Folding, analyse
from ..fold import NARROW
from ..ir import Graph, show
from ..util import symbols, with_specs

ASSUMPTIONS = ["Operations of the same name and signature do the same in NumPy, JAX and the array standard.",
               "jax.random draws from the standard distributions with the parameters it is given."]
U = "glass._array_api_utils:xp_additions."
# operation -> its parameters and their defaults
SIG = {
    "trapezoid": "y x=None dx=1.0 axis=-1", "interp": "x xp fp left=None right=None period=None", "gradient": "f * axis=None edge_order=1",
    "linalg.lstsq": "a b rcond=None", "einsum": "subscripts *", "apply_along_axis": "func1d axis arr *", "radians": "x", "degrees": "x",
    "tril_indices": "n k=0 m=None", "ndindex": "shape", "add": "x1 x2", "multiply": "x1 x2", "diff": "a n=1 axis=-1", "triu_indices": "n k=0 m=None",
    "cumulative_trapezoid": "y x=None dx=1.0 axis=-1 initial=None", "linalg.solve": "a b", "linalg.pinv": "a rcond=None", "matmul": "a b", "dot": "a b",
    "apply_over_axes": "func a axes",
    "jax.random.uniform": "key shape=() dtype=float minval=0.0 maxval=1.0", "jax.random.normal": "key shape=() dtype=float",
    "jax.random.poisson": "key lam shape=None dtype=int", "jax.random.multinomial": "key n p shape=None dtype=None unroll=1",
    "jax.random.exponential": "key shape=() dtype=float", "jax.random.gumbel": "key shape=() dtype=float", "jax.random.binomial": "key n p shape=None dtype=float",
    "jax.random.truncated_normal": "key lower upper shape=None dtype=float",
}
DRAW = {"random": "size=None dtype=None out=None", "normal": "loc=0.0 scale=1.0 size=None", "poisson": "lam=1.0 size=None", "standard_normal": "size=None dtype=None out=None",
        "uniform": "low=0.0 high=1.0 size=None", "multinomial": "n pvals size=None", "lognormal": "mean=0.0 sigma=1.0 size=None", "standard_exponential": "size=None",
        "binomial": "n p size=None", "exponential": "scale=1.0 size=None", "integers": "low high=None size=None"}
ALIAS = {"deg2rad": "radians", "rad2deg": "degrees", "trapz": "trapezoid", "integrate.trapezoid": "trapezoid"}
PREFIX = ("jax.scipy.", "scipy.", "jax.numpy.", "numpy.", "np.", "xp.", "jnp.")
CONVERT = {"asarray", "array", "copy", "ascontiguousarray"}
DROP = {"copy", "device"}


def p(**kw):
    return {k: ("param", v) for k, v in kw.items()}


HELPERS = [
    ("trapezoid", "trapezoid", p(y="y", x="x", dx="dx", axis="axis")), ("trapezoid", "trapezoid_default", p(y="y", x="x")),
    ("trapezoid", "trapezoid_samples", p(y="y")), ("trapezoid", "trapezoid_spacing", p(y="y", dx="dx")), ("trapezoid", "trapezoid_axis", p(y="y", x="x", axis="axis")),
    ("interp", "interp", p(x="x", xp="x_points", fp="y_points", left="left", right="right", period="period")), ("interp", "interp_default", p(x="x", xp="x_points", fp="y_points")),
    ("interp", "interp_left", p(x="x", xp="x_points", fp="y_points", left="left")), ("interp", "interp_right", p(x="x", xp="x_points", fp="y_points", right="right")),
    ("interp", "interp_period", p(x="x", xp="x_points", fp="y_points", period="period")),
    ("interp", "interp_sides", {**p(x="x", xp="x_points", fp="y_points"), "left": ("const", 0.0), "right": ("const", 0.0)}),
    ("gradient", "gradient", p(f="f")), ("linalg.lstsq", "lstsq", p(a="a", b="b", rcond="rcond")), ("linalg.lstsq", "lstsq_default", p(a="a", b="b")),
    ("einsum", "einsum", {"subscripts": ("param", "subscripts"), "*0": ("param", "a"), "*1": ("param", "b")}),
    ("einsum", "einsum_one", {"subscripts": ("param", "subscripts"), "*0": ("param", "a")}),
    ("apply_along_axis", "along", {"func1d": ("partial", ("param", "func"), ("param", "a"), ("param", "b")), **p(axis="axis", arr="arr")}),
    ("apply_along_axis", "along_options", {"func1d": ("partial", ("param", "func"), ("param", "a"), ("param", "b")), **p(axis="axis", arr="arr", left="left"), "*0": ("param", "more")}),
    ("radians", "radians", p(x="a")), ("degrees", "degrees", p(x="a")), ("ndindex", "ndindex", p(shape="shape")),
    ("tril_indices", "tril", p(n="n")), ("tril_indices", "tril_options", p(n="n", k="k", m="m")), ("tril_indices", "tril_offset", p(n="n", k="k")),
]
OWN = {"linalg.lstsq": "linalg_lstsq"}


class Typed(Folding):
    """Decides questions about the types of values that are known."""

    def kind(self, n, depth=6):
        n = self.freeze(n)
        if n.op == "const":
            return type(n.data).__name__
        if n.op in ("tuple", "list", "dict"):
            return n.op
        if n.op == "ref":
            o = self.state.heap.get(n.data[0] if isinstance(n.data, tuple) else n.data)
            k = type(o).__name__
            return {"ListObj": "list", "DictObj": "dict", "list": "list", "dict": "dict"}.get(k)
        if n.op == "call" and n.data[0].startswith("np."):
            return "ndarray"
        if n.op == "call" and n.data[0].startswith("xp."):
            return "ndarray" if self.cfg.backend == "numpy" else "array"
        if n.op == "param" and (n.meta or {}).get("shape") is not None:
            return "ndarray" if self.cfg.backend == "numpy" else "array"
        if n.op == "bin" and depth:
            ks = {self.kind(a, depth - 1) for a in n.args}
            return next((k for k in ("ndarray", "array") if k in ks), None)
        return None

    def call_ext(self, fn, args, kwargs, e):
        if fn == "builtins.hasattr" and len(args) == 2 and args[1].op == "const" and args[1].data == "__array_namespace__":
            k = self.kind(args[0])
            if k:
                return self.g.const(k in ("array", "ndarray"))
        if fn == "builtins.isinstance" and len(args) == 2:
            k = self.kind(args[0])
            r = self.isa(k, args[1]) if k else None
            if r is not None:
                return self.g.const(r)
        return super().call_ext(fn, args, kwargs, e)

    def isa(self, k, cl):
        for t in cl.args if cl.op == "tuple" else (cl,):
            name = (t.data[-1] if isinstance(t.data, tuple) else str(t.data)).split(".")[-1]
            if name == k or name == "Sequence" and k in ("tuple", "list", "str", "bytes") or name in ("Mapping", "MutableMapping") and k == "dict" or name == "int" and k == "bool":
                return True
            if name not in ("tuple", "list", "dict", "str", "bytes", "int", "float", "complex", "ndarray", "Sequence", "bool", "Mapping", "MutableMapping", "set"):
                return None
        return False


class Tree:
    """What a value is, apart from the libraries it is computed with."""

    def __init__(self, it):
        self.it = it
        self.memo = {}

    def of(self, n):
        if n.id not in self.memo:
            self.memo[n.id] = ("?", n.id)
            self.memo[n.id] = self.make(n)
        return self.memo[n.id]

    def fields(self, sig, names, args, keep=()):
        ps, defaults, var = [], {}, False
        for x in sig.split():
            if x == "*":
                var = True
                continue
            k, _, d = x.partition("=")
            if not var:
                ps.append(k)
            if _:
                defaults[k] = d
        out, pos, nv = {}, 0, 0
        for nm, a in zip(names, args):
            if a.op == "star":
                return None
            if isinstance(nm, int) or str(nm).isdigit() or nm in (None, "*"):
                if pos < len(ps):
                    k = ps[pos]
                    pos += 1
                else:
                    k = f"*{nv}"
                    nv += 1
            else:
                k = nm
                if k in ps[pos:pos + 1]:
                    pos += 1
            out[k] = self.of(a)
        for k, d in defaults.items():
            if k in out and k not in keep and (out[k] == ("const", {"None": None, "()": ()}.get(d, d)) or out[k] == ("tuple",) and d == "()" or
                             out[k][0] == "const" and str(out[k][1]) in (d, d.removesuffix(".0")) or out[k] == ("ext", "builtins." + d)):
                del out[k]
        return out

    def call(self, n):
        f, names = n.data[0], list(n.data[1]) if len(n.data) > 1 else []
        for pre in PREFIX:
            if f.startswith(pre):
                f = f[len(pre):]
                break
        f = ALIAS.get(f, f)
        args = list(n.args)
        if f in NARROW and len(args) == 1:
            return (f, (("x", self.of(args[0])),))
        if f in CONVERT and args and args[0].op != "star":
            rest = {k: a for k, a in zip(names[1:], args[1:]) if k not in DROP}
            if not rest:
                return self.of(args[0])
            if set(rest) == {"dtype"}:
                return ("as", self.of(rest["dtype"]), self.of(args[0]))
            return ("?", n.id)
        if f == "apply_along_axis" and "func_inputs" in names:
            names = [{"func": 0, "func_inputs": 1, "axis": 2, "arr": 3}.get(k, k) for k in names]
        if f == "apply_along_axis":
            names = ["func1d" if k == "func" else k for k in names]
        if f in SIG:
            names = list(names) + list(range(len(names), len(args)))
            d = self.fields(SIG[f], names, args)
            if d is None:
                return ("?", n.id)
            d.pop("key", None)
            if f == "jax.random.uniform":
                lo, hi = d.pop("minval", ("const", 0.0)), d.pop("maxval", ("const", 1.0))
                u = (f, tuple(sorted(d.items())))
                return u if (lo, hi) == (("const", 0.0), ("const", 1.0)) else ("bin", "+", lo, ("bin", "*", ("bin", "-", hi, lo), u))
            return (f, tuple(sorted(d.items())))
        return ("call", f, *[self.of(a) for a in args])

    def make(self, n):
        op = n.op
        if op == "param":
            return ("param", n.data[1])
        if op == "const":
            return ("const", n.data)
        if op == "ext":
            return ("ext", n.data)
        if op == "nsfn":
            return ("fn", n.data[1])
        if op in ("tuple", "list"):
            xs = [self.of(a) for a in n.args]
            return (op, *xs)
        if op == "call":
            return self.call(n)
        if op == "partial":
            return ("partial", *[self.of(a) for a in n.args])
        if op == "comp" and len(n.args) >= 2:
            b = self.of(n.args[0])
            if b[0] == "elem" and b[1] == self.of(n.args[1]):
                return b[1]
            return ("?", n.id)
        if op == "elem":
            return ("elem", self.of(n.args[0]))
        if op == "phi":
            c, a, b = n.args
            x, y = self.of(a), self.of(b)
            if x == y:
                return x
            if c.op == "cmp" and c.data in ("is", "==") and c.args[1].op == "const" and c.args[1].data is None and x == ("const", None) and y == self.of(c.args[0]):
                return y
            return ("?", n.id)
        if op == "bin":
            return ("bin", n.data, *[self.of(a) for a in n.args])
        if op == "un":
            return ("un", n.data, self.of(n.args[0]))
        if op == "ucall" and n.args and n.args[0].op == "vectorized":
            return ("elementwise", self.of(n.args[0].args[0]), *[self.of(a) for a in n.args[1:]])
        if op == "draw":
            m, names = n.data[0], n.data[1] if len(n.data) > 2 else ()
            if m in DRAW and n.args[0].op == "param":
                d = self.fields(DRAW[m], names, n.args[1:])
                if d is not None:
                    return ("draw", m, tuple(sorted(d.items())))
            return ("?", n.id)
        if op == "slice":
            return ("slice", *[self.of(a) for a in n.args]) if len(n.args) == 3 and all(a.op == "const" for a in n.args) else ("?", n.id)
        if op == "index":
            x, i = self.of(n.args[0]), self.of(n.args[1])
            if i in (("slice", *[("const", v) for v in w]) for w in ((None, None, None), (0, None, None), (None, None, 1), (0, None, 1))):
                return x
            return ("index", x, i) if i[0] != "slice" or backward(i) else ("?", n.id)
        if op == "dict":
            return ("dict", *[self.of(a) for a in n.args])
        return ("?", n.id)


def backward(i):
    return i == ("slice", ("const", None), ("const", None), ("const", -1))


def unknown(t):
    return isinstance(t, tuple) and (bool(t) and t[0] in ("?", "call", "as") or any(unknown(x) for x in t))


def number(t, salt):
    """A number for arithmetic on parameters; whatever else is an independent quantity."""
    if t[0] == "const" and isinstance(t[1], (int, float)):
        return t[1]
    if t == ("fn", "pi") or t == ("ext", "math.pi"):
        return 3.141592653589793
    if t[0] == "bin" and t[1] in "+-*/":
        a, b = number(t[2], salt), number(t[3], salt)
        if t[1] == "/" and not b:
            return 0.0
        return a + b if t[1] == "+" else a - b if t[1] == "-" else a * b if t[1] == "*" else a / b
    if t[0] == "un" and t[1] == "-":
        return -number(t[2], salt)
    if t[0] in ("radians", "degrees") and dict(t[1]).keys() == {"x"}:
        k = 3.141592653589793 / 180
        return number(dict(t[1])["x"], salt) * (k if t[0] == "radians" else 1 / k)
    return 0.5 + zlib.crc32(repr((salt, t)).encode()) / 2**32


def agree(t, want):
    """True, False or None."""
    if t == want:
        return True
    if t[0] in ("bin", "un", "radians", "degrees") or want[0] == "bin":
        if all(abs(number(t, k) - number(want, k)) <= 1e-12 * (1 + abs(number(want, k))) for k in range(4)):
            return True
    if t[0] == "index" and t[1] == want and (backward(t[2]) or t[2][0] == "const" and isinstance(t[2][1], int)):
        return False
    if t[0] == "tuple" and len(t) > 2 and all(x[0] == "index" and x[1] == want and x[2][0] == "const" for x in t[1:]):
        return [x[2][1] for x in t[1:]] == list(range(len(t) - 1)) or (False if sorted(x[2][1] for x in t[1:]) == list(range(len(t) - 1)) else None)
    if t[0] == "index" or want[0] == "index" or t[0] == "as":
        return None
    return None if unknown(t) else False


def library(n):
    """np, xp or None."""
    if n.op == "call":
        f = n.data[0]
        if f.startswith(("np.", "numpy.")):
            return "np"
        if f.startswith("xp."):
            return "xp"
    if n.op == "ucall" and n.args[0].op == "vectorized":
        return None
    if n.op in ("comp", "index", "phi"):
        xs = {library(a) for a in (n.args[1:] if n.op == "phi" else n.args[:1])}
        return "np" if "np" in xs else xs.pop() if len(xs) == 1 else None
    if n.op in ("tuple", "list"):
        xs = {library(a) for a in n.args}
        return "np" if "np" in xs else "xp" if xs == {"xp"} else None
    return None


def run(c, name, backend, bind=None, cls=None, shapes=()):
    pr = with_specs(c.project, "libraries")
    g = Graph()
    q = f"spec_libraries:{name}"
    fn = pr.find_func(q)[2]
    nn = {x.arg for x in fn.args.args}
    b = symbols(pr, g, q, notnull=nn)
    for k, n in b.items():
        if n.meta is not None:
            n.meta["notnull"] = True
            if k in shapes:
                n.meta["shape"] = (3,)
    if "xp" in b:
        b["xp"] = g.mk("ns", (), "xp")
    for k, v in (bind or {}).items():
        b[k] = g.tuple([g.const(x) for x in v]) if isinstance(v, tuple) else g.const(v)
    cfg = Config(backend=backend, notnull=nn)
    cfg.shape_rules, cfg.elementwise, cfg.draw_rules, cfg.oracle = {}, {}, {}, None
    it = analyse(pr, q, cfg, bind=b, graph=g, cls=cls or Typed)
    c.count(it)
    return it


def anchor(c, q):
    f = c.project.find_func(q)
    return (f[0].rel, f[2].lineno, q.split(":")[1]) if f else None


BACKENDS = ("numpy", "jax.numpy", "array_api_strict")


def check(c):
    for op, prog, want in HELPERS:
        for b in BACKENDS:
            c.section(helper, c, op, prog, want, b)
    for b in BACKENDS:
        c.section(vector, c, b)
    for prog in ("wrapped", "wrapped_nested", "wrapped_table", "wrapped_plain"):
        for b in ("numpy", "array_api_strict", "jax.numpy"):
            c.section(wrapper, c, prog, b)
    pr = with_specs(c.project, "libraries")
    for key in HEALPIX:
        for prog in (key, key + "_default"):
            if pr.find_func(f"spec_libraries:{prog}"):
                for b in BACKENDS[::2]:
                    c.section(passed, c, prog, b)
    for m in ("random", "normal", "poisson", "standard_normal", "uniform", "multinomial"):
        for b in BACKENDS:
            c.section(draws, c, m, b)
        for size in (None, 3, (2, 3)):
            c.section(keys, c, m, size)
    for m in ("normal", "uniform"):
        c.section(keys, c, m + "_default", (3,))


# HEALPix functions: program -> function, its parameters and their defaults, array arguments
HEALPIX = {
    "alm2map": ("healpy.alm2map", "alms nside lmax=None mmax=None pixwin=False fwhm=0.0 sigma=None pol=True inplace=False verbose=True", ("alms",)),
    "alm2map_spin": ("healpy.alm2map_spin", "alms nside spin lmax mmax=None", ()),
    "almxfl": ("healpy.almxfl", "alm fl mmax=None inplace=False", ("alm", "fl")),
    "ang2pix": ("healpix.ang2pix", "nside theta phi nest=False lonlat=False", ("theta", "phi")),
    "ang2vec": ("healpix.ang2vec", "theta phi lonlat=False", ("theta", "phi")),
    "map2alm": ("healpy.map2alm", "maps lmax=None mmax=None iter=3 pol=True use_weights=False datapath=None gal_cut=0 use_pixel_weights=False verbose=True", ("maps",)),
    "pixwin": ("healpy.pixwin", "nside pol=False lmax=None datapath=None", ()),
    "get_nside": ("healpy.get_nside", "m", ("m",)),
    "npix2nside": ("healpix.npix2nside", "npix", ()),
    "nside2npix": ("healpix.nside2npix", "nside", ()),
    "query_strip": ("healpy.query_strip", "nside theta1 theta2 inclusive=False nest=False buff=None return_ranges=False", ()),
    "randang": ("healpix.randang", "nside ipix nest=False lonlat=False rng=None", ("ipix",)),
}
SAME = {"theta1": "low", "theta2": "high"}
CHOICES = {"lmax": (None, 0, 3), "inplace": (True, False), "pixwin": (True, False), "pol": (True, False), "lonlat": (True, False),
           "use_pixel_weights": (True, False), "low": (2.0, 0.0), "high": (1.0, 0.0), "spin": (1, 2), "nside": (1, 6)}


def passed(c, prog, backend):
    """The function of the library is called with what the caller gave."""
    rule = "HEALPix functions get the caller's arguments"
    key = prog.removesuffix("_default")
    fn, sig, arrays = HEALPIX[key]
    where = anchor(c, f"glass.healpix:{key}")
    f = with_specs(c.project, "libraries").find_func(f"spec_libraries:{prog}")[2]
    params = [a.arg for a in f.args.args if a.arg != "xp"]
    cases = [{}] + [{k: v} for k in params for v in CHOICES.get(k, ())]
    cases += [{"low": 2.0, "high": 1.0}, {"low": 1.0, "high": 2.0}] if "high" in params else []
    for bind in cases:
        name = f"{prog}, {backend}" + "".join(f", {k}={v}" for k, v in bind.items())
        it = run(c, prog, backend, bind=bind, shapes=arrays)
        if lost(c, it, rule, name, where):
            continue
        calls, todo, seen = [], [it.freeze(it.result)], set()
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "call" and n.data[0] == fn:
                calls.append(n)
            todo += n.args
        if len(calls) != 1:
            c.unk(rule, name, f"{len(calls)} calls of {fn}: {show(it.freeze(it.result), 4)}"[:200], where)
            continue
        n = calls[0]
        T = Tree(it)
        got = T.fields(sig, list(n.data[1]) if len(n.data) > 1 else [], n.args)
        if got is None:
            c.unk(rule, name, show(n, 3), where)
            continue
        full = {x.partition("=")[0]: x.partition("=")[2] for x in sig.split()}
        want = {}
        for k in full:
            m = SAME.get(k, k)
            if m in params:
                want[k] = ("const", bind[m]) if m in bind else ("param", m)
        want = {k: v for k, v in want.items() if not (full[k] and v[0] == "const" and str(v[1]) == full[k])}
        got.pop("datapath", None)
        got.pop("rng", None)
        want.pop("rng", None)
        res, detail = True, f"{len(want)} arguments"
        for k in {**want, **got}:
            u, v = got.get(k, ("const", full[k])), want.get(k, ("const", full[k]))
            if u == v or str(u) == str(v):
                continue
            r = None if unknown(u) or u[0] in ("index", "tuple", "list") or v[0] in ("tuple", "list") or u[0] == "param" and v[0] == "const" else False
            if res is not False and r is not True:
                res, detail = r, f"{k} is {brief(u)} instead of {brief(v)}"
        c.decide(res, rule, name, detail, where)


def lost(c, it, rule, name, where):
    if it.result is None or it.broken or it.gaps or it.result.op == "never":
        raises = [e for e in it.events if e.kind == "raise"]
        if it.result is None and not it.gaps and raises and it.broken in (None, "no path returns"):
            c.bad(rule, name, f"every path raises {raises[0].info.get('exc')}", where)
        else:
            c.unk(rule, name, str(it.broken or it.gaps[:1])[:200], where)
        return True
    return False


def helper(c, op, prog, want, backend):
    where = anchor(c, U + OWN.get(op, op))
    name = f"{prog}, {backend}"
    rule = "the branch performs the helper's operation"
    it = run(c, prog, backend)
    if lost(c, it, rule, name, where):
        return
    r = it.freeze(it.result)
    t = Tree(it).of(r)
    w = (op, tuple(sorted(want.items())))
    ok = agree(t, w)
    (c.ok if ok else c.bad if ok is False else c.unk)(rule, name, show(r, 4)[:160] if ok is not False else f"computes {brief(t)} instead of {brief(w)}", where)
    if backend == "array_api_strict" and op != "ndindex":
        lib = library(r)
        (c.bad if lib == "np" else c.ok if lib == "xp" else c.unk)("results return to the caller's library", name, show(r, 3)[:160], where)


def brief(t):
    if not isinstance(t, tuple):
        return str(t)
    if t and t[0] == "param":
        return t[1]
    if t and t[0] == "const":
        return repr(t[1])
    if t and t[0] == "bin":
        return f"({brief(t[2])} {t[1]} {brief(t[3])})"
    if len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in t[1]):
        return f"{t[0]}({', '.join(f'{k}={brief(v)}' for k, v in t[1])})"
    if t and t[0] == "draw":
        return f"{t[1]}({', '.join(f'{k}={brief(v)}' for k, v in t[2])})"
    return str(t[0]) + "(" + ", ".join(brief(x) for x in t[1:]) + ")"


def vector(c, backend):
    where = anchor(c, U + "vectorize")
    it = run(c, "vectorize", backend)
    rule = "the branch performs the helper's operation"
    if lost(c, it, rule, f"vectorize, {backend}", where):
        return
    t = Tree(it).of(it.freeze(it.result))
    ok = agree(t, ("elementwise", ("param", "f"), ("param", "a")))
    (c.ok if ok else c.bad if ok is False else c.unk)(rule, f"vectorize, {backend}", brief(t)[:160], where)


def wrapper(c, prog, backend):
    where = anchor(c, "glass._array_api_utils:numpy_fallback")
    name = f"{prog}, {backend}"
    rule = "arguments and results are converted wherever they are"
    it = run(c, prog, backend, shapes="" if prog == "wrapped_plain" else "abk", bind={"n": 2, "key": 3} if prog == "wrapped_plain" else None)
    if lost(c, it, rule, name, where):
        return
    r = it.freeze(it.result)
    if prog == "wrapped_plain":
        (c.ok if r.op == "const" and r.data == 5 else c.bad if r.op == "const" else c.unk)(rule, name, show(r, 4), where)
        return
    parts = []
    collect(it, r, (), parts)
    a, b, k = (("param", x) for x in "abk")
    if prog == "wrapped":
        want = {(0,): ("bin", "+", a, b), (1, 0): ("bin", "*", a, k), (1, 1): ("const", 2), (2,): ("const", True)}
    elif prog == "wrapped_table":
        want = {("sum",): ("bin", "+", a, b), ("rest", 0): ("bin", "*", a, k)}
    else:
        want = {("sum",): ("bin", "+", a, b), ("rest", 0): ("bin", "*", a, k), ("rest", 1): ("const", 1)}
    T = Tree(it)
    got = dict(parts)
    if set(got) != set(want):
        c.unk(rule, name, f"{show(r, 4)[:160]}", where)
        return
    for path, n in parts:
        t = T.of(n)
        ok = agree(t, want[path])
        what = ".".join(map(str, path))
        if ok is not True:
            (c.bad if ok is False else c.unk)(rule, name, f"part {what} is {brief(t)} instead of {brief(want[path])}", where)
            return
        if backend == "numpy" or n.op == "const":
            continue
        raw = [x for x in operands(n) if not (x.op == "call" and x.data[0].startswith(("np.asarray", "np.array")))]
        if raw and n.op == "call":
            c.bad(rule, name, f"{show(raw[0], 3)} reaches the NumPy function unconverted", where)
            return
        if library(n) != "xp":
            (c.bad if n.op == "bin" or library(n) == "np" else c.unk)(rule, name, f"part {what} is not converted back: {show(n, 3)}", where)
            return
    c.ok(rule, name, f"{len(parts)} parts", where)


def operands(n):
    """Arrays that meet in the NumPy operation."""
    while n.op == "call" and n.data[0].startswith("xp.") and n.args:
        n = n.args[0]
    return [a for a in n.args if a.op != "const"] if n.op == "bin" else []


def collect(it, n, path, out):
    n = it.freeze(n)
    if n.op in ("tuple", "list"):
        for i, a in enumerate(n.args):
            collect(it, a, path + (i,), out)
        return
    if n.op == "dict" and len(n.args) % 2 == 0 and all(k.op == "const" for k in n.args[::2]):
        for k, v in zip(n.args[::2], n.args[1::2]):
            collect(it, v, path + (k.data,), out)
        return
    out.append((path, n))


ARGS = {"random": (), "normal": ("loc", "scale"), "poisson": ("lam",), "standard_normal": (), "uniform": ("low", "high"), "multinomial": ("n", "pvals")}


def draws(c, m, backend):
    where = anchor(c, f"glass.rng:Generator.{m}")
    rule = "generators are asked for the same numbers"
    for variant in (("",) if m not in ("normal", "uniform") else ("", "_default")):
        for size in ("given", None):
            name = f"{m}{variant}, size {size}, {backend}"
            it = run(c, f"draw_{m}{variant}", backend, bind={"size": None} if size is None else None)
            if lost(c, it, rule, name, where):
                continue
            r = it.freeze(it.result)
            t = Tree(it).of(r)
            if t[0] == "as":
                d = t[1]
                if d[0] == "fn" and d[1] not in ("float64", "double") and m in ("random", "standard_normal"):
                    c.bad(rule, name, f"numbers are converted to {d[1]}", where)
                    continue
                t = t[2]
            args = {} if variant else {k: ("param", k) for k in ARGS[m]}
            want = ("draw", m, tuple(sorted({**args, **({"size": ("param", "size")} if size else {})}.items())))
            ok = agree(t, want)
            if ok is None and unknown(t):
                c.unk(rule, name, show(r, 4)[:160], where)
            elif ok is False and size and m in ("normal", "uniform") and t[0] == "bin":
                c.unk(rule, name, show(r, 4)[:160], where)
            elif not ok:
                c.bad(rule, name, f"{brief(t)} instead of {brief(want)}", where)
            else:
                c.ok(rule, name, brief(t), where)


def keys(c, m, size):
    """The generator for JAX draws what NumPy's generator draws."""
    base = m.removesuffix("_default")
    where = anchor(c, f"glass.jax:Generator.{base}")
    rule = "generators draw from the distribution asked for"
    name = f"{m}, size {size}, JAX"
    it = run(c, f"key_{m}", "jax.numpy", bind={"size": size})
    if lost(c, it, rule, name, where):
        return
    r = it.freeze(it.result)
    t = Tree(it).of(r)
    call = found(t)
    if call is None:
        c.unk(rule, name, show(r, 4)[:160], where)
        return
    fn = {"random": "jax.random.uniform", "uniform": "jax.random.uniform", "normal": "jax.random.normal", "standard_normal": "jax.random.normal",
          "poisson": "jax.random.poisson", "multinomial": "jax.random.multinomial"}[base]
    d = dict(call[1])
    shape, dtype = d.pop("shape", ("tuple",)), d.pop("dtype", None)
    want = {"poisson": {"lam": ("param", "lam")}, "multinomial": {"n": ("param", "n"), "p": ("param", "pvals")}}.get(base, {})
    if call[0] != fn or d != want:
        if unknown(tuple(d.items())):
            c.unk(rule, name, show(r, 4)[:160], where)
        else:
            c.bad(rule, name, f"draws {brief(call)}", where)
        return
    if dtype is not None and dtype != ("param", "dtype") and not m.endswith("_default") and not unknown(dtype) or dtype is None and not m.endswith("_default"):
        c.bad(rule, name, "numbers do not have the type asked for", where)
        return
    one = ("param", "#")
    body = replace(t, call, one)
    loc, scale, low, high = (("param", x) for x in ("loc", "scale", "low", "high"))
    form = {"normal": ("bin", "+", loc, ("bin", "*", scale, one)), "uniform": ("bin", "+", low, ("bin", "*", ("bin", "-", high, low), one))}.get(m, one)
    ok = agree(body, form) if body != form else True
    if not ok:
        (c.bad if ok is False else c.unk)(rule, name, f"returns {brief(body)} instead of {brief(form)}, where # is the number drawn", where)
        return
    if size is not None:
        s = (size,) if isinstance(size, int) else size
        ws = ("tuple", *[("const", x) for x in s])
        if base == "multinomial":
            known = shape[0] == "tuple" and shape[1:1 + len(s)] == ws[1:] or unknown(shape)
        else:
            known = shape == ws or unknown(shape)
        if not known:
            c.bad(rule, name, f"draws numbers of shape {brief(shape)} instead of {brief(ws)}", where)
            return
        if unknown(shape) and base != "multinomial":
            c.unk(rule, name, f"shape {brief(shape)[:100]}", where)
            return
    elif ARGS[base] and shape in (("tuple",), ("const", None)) and base in ("normal", "uniform"):
        c.bad(rule, name, "one number is drawn for all elements of the parameters", where)
        return
    c.ok(rule, name, show(r, 4)[:160], where)


def found(t):
    if not isinstance(t, tuple):
        return None
    if t and isinstance(t[0], str) and t[0].startswith("jax.random.") and t[0] in SIG:
        return t
    xs = {x for x in map(found, t) if x is not None}
    return xs.pop() if len(xs) == 1 else None


def replace(t, a, b):
    if t == a:
        return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t
