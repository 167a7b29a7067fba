"""Sampled values stay inside their documented range.

Every sampler is evaluated symbolically with random draws as symbols, along every path through its
resampling loops up to a number of rounds, masks being decided element by element.  For every value
that is returned, or handed on to the next draw, the comparisons decided on that path must include
the documented bound on this very value; a violation is a path whose decided comparisons allow a
value out of range.  Values that need no resampling are bounded by their form.
"""

import itertools

from ..alg import RF, Alg, TooBig
from ..closed import loc
from ..known import PosAlg
from ..grids import Draws, GridCase, Gridded, number
from ..ir import Graph
from ..paths import paths

ASSUMPTIONS = [
    "Numbers are real and exact; parameters lie in their documented domains.",
    "Numbers of values and of resampling rounds are those enumerated.",
]


def check(c):
    for part in (gaussian, intrinsic, ryden, ratios, photometric, latitudes, counts):
        c.section(part, c)


class Choosing(Gridded):
    @property
    def guesses(self):
        return 0


class Sampled(GridCase):
    def ok(self, name, node):
        return name == "leaf" and node is not None and node.op in ("ext", "nsfn") and number(node) is not None or super().ok(name, node)

    def __init__(self, *args, counts=None, **kw):
        super().__init__(*args, **kw)
        self.cls = Choosing
        self.drawn = Draws(self.g, (), counts)
        self.draws = self.drawn.rules()


RANGES = {"normal": (-3, 3), "uniform": (0, 1)}


def algebra(domains, positive=False):
    def ranges(name, args, node):
        text = args if isinstance(args, str) else repr(args)
        if node is not None:
            n = node
            while n.op in ("el", "index", "call") and n.args:
                n = n.args[0]
            if n.op == "param":
                text = n.data[1]
        for k, r in {**RANGES, **domains}.items():
            if str(text).startswith(k):
                return r
        return (0.15, 0.85)
    A = (PosAlg if positive else Alg)(fill=True, real=True)
    A.phis = True
    A.ranges = ranges
    A.generic = ("param", "const", "el", "pos", "ext", "nsfn")
    return A


def spread(z, trace):
    """Decisions, those on any or all elements of an array in terms of the elements."""
    out = []
    for c, t in trace:
        if not isinstance(t, bool):
            out.append((c, t))
            continue
        while c.op == "not" or c.op == "un" and c.data == "~":
            c, t = c.args[0], not t
        x, every = None, None
        if c.op == "cmp" and c.data == "<" and c.args[0].op == "const" and c.args[0].data == 0 and c.args[1].op == "call" and c.args[1].data[0].endswith("count_nonzero"):
            x, every = c.args[1].args[0], False
        elif c.op == "cmp" and c.data == "==" and 0 in [a.data for a in c.args if a.op == "const"]:
            n = [a for a in c.args if a.op == "call" and a.data[0].endswith("count_nonzero")]
            if n:
                x, every, t = n[0].args[0], False, not t
        elif c.op == "call" and c.data[0].rpartition(".")[2] in ("any", "all") and len(c.args) == 1:
            x, every = c.args[0], c.data[0].endswith("all")
        xs = elements(z, x) if x is not None and t is every else None
        if not xs and c.op == "cmp" and all(z.it.shape(a) == () for a in c.args):
            xs = [((), z.el(c))]
        out += [(e, t) for _, e in xs] if xs else [(c, t)]
    return out


def decisions(trace):
    """Truth of the conditions that follow from those decided on the path."""
    known = {}

    def parts(c):
        f = c.data[0].rpartition(".")[2] if c.op == "call" else None
        if c.op in ("or", "and") or c.op == "bin" and c.data in ("|", "&") or f in ("logical_or", "logical_and"):
            return c.op == "or" or c.data == "|" or f == "logical_or", c.args
        return None, ()

    def plain(c, t):
        while c.op == "not" or c.op == "un" and c.data == "~" or c.op == "call" and c.data[0].rpartition(".")[2] == "logical_not":
            c, t = c.args[0], not t
        return c, t

    def learn(c, t):
        c, t = plain(c, t)
        known[c.id] = t
        stop, args = parts(c)
        if stop is not None and t is not stop:
            for a in args:
                learn(a, t)

    def truth(c):
        c, same = plain(c, True)
        t = known.get(c.id)
        stop, args = parts(c)
        if t is None and stop is not None:
            ts = [truth(a) for a in args]
            t = stop if stop in ts else None if None in ts else not stop
        return None if t is None else t is same
    for c, t in trace:
        if isinstance(t, bool):
            learn(c, t)
    return truth


def facts(A, trace):
    """Decided comparisons: normal forms that are not positive on the path."""
    out = []

    def add(c, t):
        while c.op in ("not", "un") and (c.op == "not" or c.data == "~"):
            c, t = c.args[0], not t
        if c.op in ("or", "and") or c.op == "bin" and c.data in ("|", "&"):
            every = c.op == "and" or c.data == "&"
            if t is every:
                for a in c.args:
                    add(a, t)
            return
        if c.op == "call" and c.data[0].rpartition(".")[2] in ("logical_or", "logical_and"):
            if t is c.data[0].endswith("and"):
                for a in c.args:
                    add(a, t)
            return
        if c.op == "cmp" and len(c.args) == 2 and c.data in ("<", "<=", ">", ">="):
            a, b = A.of(c.args[0]), A.of(c.args[1])
            up = c.data[0] == "<"
            d = A.sub(a, b) if up is t else A.sub(b, a)
            out.append(d)
    for c, t in trace:
        if isinstance(t, bool):
            add(c, t)
    return out


def true(A, c, salt, ok):
    """Truth of a condition at a generic point, or None."""
    if c.op == "un" and c.data == "~":
        t = true(A, c.args[0], salt, ok)
        return None if t is None else not t
    f = c.data[0].rpartition(".")[2] if c.op == "call" else None
    if c.op == "bin" and c.data in ("|", "&") or c.op in ("and", "or") or f in ("logical_or", "logical_and"):
        ts = [true(A, a, salt, ok) for a in c.args]
        stop = c.op == "or" or c.data == "|" or f == "logical_or"
        return stop if stop in ts else None if None in ts else not stop
    if c.op == "not":
        t = true(A, c.args[0], salt, ok)
        return None if t is None else not t
    if c.op == "cmp" and not all(A.understood(A.of(a), ok) for a in c.args):
        return None
    return A.truth(c, salt)


def settle(z, trace, name, bounds):
    """None if every (label, value, [forms not positive when in range]) is bounded; else (definite, text)."""
    A = z.A
    unknown = None
    trace = spread(z, trace)
    known = facts(A, trace)
    for label, forms in bounds:
        for text, form, alternatives in forms:
            if any(matches(A, k, w) for k in known for w in alternatives):
                continue
            w = witness(A, z, trace, form, 30)
            if w is None and bounded(A, form):
                continue
            w = w or witness(A, z, trace, form)
            if w is not None:
                return True, f"{label} is not known to be {text} after the comparisons made on the way to it ({w})"
            unknown = False, f"{label}: whether it is {text}: {A.show(form)[:200]}"
    return unknown


def matches(A, fact, want):
    """The fact implies that want is not positive: same form up to a positive factor and a constant."""
    if A.eq(fact, want):
        return True
    d = A.sub(want, fact)
    return d.is_const() and d.cval() <= 0


def bounded(A, form):
    """The form is not positive whatever its variables are."""
    if form.is_const():
        return form.cval() <= 0
    if not_negative(A, A.negate(form)):
        return True
    angle = A.single(A.div(A.mul(A.add(form, A.C(90)), A.A(A.PI)), A.C(180)), "asin")
    other = A.single(A.div(A.mul(A.negate(A.add(form, A.C(90))), A.A(A.PI)), A.C(180)), "asin")
    for t in (angle, other):
        if t is not None:
            return within(A, t[0])
    square = A.add(form, A.C(1))
    for i in square.atoms():
        name, args, _ = A.atoms_[i]
        if name == "sqrt" and not_more_than_one(A, args[0]) and A.eq(square, A.A(i)):
            return True
        if name in ("tanh", "sin", "cos") and A.eq(square, A.powi(A.A(i), 2)):
            return True
        if name == "leaf" and str(A.describe(i)).find("triaxial_axis_ratio") >= 0:
            q = A.A(i)
            if A.eq(A.mul(square, A.powi(A.add(A.C(1), q), 2)), A.powi(A.sub(A.C(1), q), 2)):
                return True
    return False


def not_more_than_one(A, x):
    """A fraction (p - s) / (p + s) with s a square root."""
    one = A.C(1)
    try:
        r = A.div(A.sub(one, x), A.add(one, x))      # s / p
    except ZeroDivisionError:
        return False
    if any(A.atoms_[a][0] == "sqrt" and dict(m).get(a) == 1 for m in r.n.t for a, _ in m) and len(A.norm(r).n.t) == 1:
        return True
    x = A.norm(x)
    d = A.norm(RF(x.d - x.n, A.C(1).n))
    return len(d.n.t) == 1 and d.d.is_const() and not_negative(A, d)


def within(A, x):
    """A linear function of a uniform number that lies between -1 and 1."""
    a = [a for a in x.atoms()]
    if len(a) != 1 or not x.d.is_const() or x.n.degree(a[0]) != 1 or A.atoms_[a[0]][0] != "leaf" or "uniform" not in str(A.describe(a[0])):
        return False
    c = sum((k for m, k in x.n.t.items() if not m), 0) / x.d.cval()
    s = sum((k for m, k in x.n.t.items() if m), 0) / x.d.cval()
    return max(abs(c), abs(c + s)) <= 1


def not_negative(A, form):
    """Sums of products of values that are not negative."""
    def atom(i):
        name, args, node = A.atoms_[i]
        if name in ("exp", "abs", "sqrt") or i == A.PI:
            return True
        if name == "max":
            return any(not_negative(A, x) for x in args)
        if name == "min":
            return all(not_negative(A, x) for x in args)
        return name == "leaf" and A.ranges(name, args, node)[0] >= 0

    def every(p):
        return all(k > 0 and all(e % 2 == 0 or atom(a) for a, e in m) for m, k in p.t.items())
    form = A.norm(form)
    return every(form.n) and every(form.d)


def witness(A, z, trace, form, points=300):
    if z.lost or not A.understood(form, z.ok) or not all(isinstance(t, bool) for _, t in trace):
        return None
    for salt in range(points):
        if all(true(A, c, salt, z.ok) is t for c, t in trace if isinstance(t, bool)):
            try:
                v = A.value(form, salt)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if v == v and abs(v.imag) < 1e-6 and v.real > 1e-6:
                return f"exceeded by {v.real:.3g} at a generic point"
            if v == v and abs(v.imag) > 1e-6:
                return "it is not a real number at a generic point"
    return None


def sampler(c, rule, name, anchor, prog, bind, bounds, domains=None, depth=6, counts=None, positive=False, law=None, size=1, module="ranges", **kw):
    """Obligation that bounds(case) hold at the end of every path of a sampler."""
    g = Graph()
    where = loc(c, anchor)
    n = 0
    unknown = drawn = None

    def make():
        z = Sampled(c, module, prog, graph=g, counts=counts, **kw)
        z.mk = lambda: algebra(domains or {}, positive)
        return z
    bound = {}
    for P in paths(make, lambda z: bound.update(bind(z)) or bound, depth=depth, limit=600):
        if P.cut:
            continue
        z = P.case
        z.args = bound
        if z.fails:
            continue
        if z.lost:
            unknown = unknown or z.why()
            continue
        n += 1
        z.A.decide = decisions(P.trace)
        bs = bounds(z)
        r = (False, "result not understood") if bs is None else settle(z, P.trace, name, bs)
        if law is not None and drawn is None or drawn is not None and not drawn[0]:
            drawn = standard(z, law(z) or [], size) or drawn
        if r is not None and r[0]:
            return c.bad(rule, name, r[1], where)
        if r is not None:
            unknown = unknown or r[1]
    if law is not None and n:
        if drawn is None:
            c.ok("random numbers of resampled values", name, f"every value is the documented function of numbers drawn for it on all {n} paths", where)
        else:
            (c.bad if drawn[0] else c.unk)("random numbers of resampled values", name, drawn[1], where)
    if unknown or not n:
        return c.unk(rule, name, unknown or "no complete path", where)
    return c.ok(rule, name, f"every value is compared with its bounds on all {n} paths", where)


def modulus(z, x):
    """Forms that are not positive if |x| <= 1."""
    A = z.A
    m = A.of(z.it.call_node("xp.abs", [x], []))
    x = A.of(x)
    try:
        m2 = A.mul(x, A.conj(x))
    except TooBig:
        m2 = A.mul(m, m)
    return [("at most 1 in modulus", A.sub(m2, A.C(1)), [A.sub(m, A.C(1)), A.sub(m2, A.C(1)), A.sub(A.sqrt(m2), A.C(1))])]


def cases(A, form, depth=6):
    """(form, True), or (form, False) for every way to decide the choices in it."""
    form = A.norm(form)
    for a in form.atoms():
        name, args, _ = A.atoms_[a]
        if name == "phi:None" and depth:
            return [(v, False) for x in args[1:] for v, _ in cases(A, A.replaced(form, {a: x}), depth - 1)]
    return [(form, True)]


def standard(z, forms, size):
    """None if each (label, form) is a sum of `size` standard normal numbers of its own, or (definite, text)."""
    A = z.A
    seen = {}
    unknown = None
    for label, form, sure in [(label, v, sure) for label, form in forms for v, sure in cases(A, form)]:
        draws = [a for a in form.atoms() if A.atoms_[a][0] == "leaf" and "normal" in str(A.describe(a))]
        rest = [a for a in form.atoms() if a not in draws and a != A.I]
        if z.lost or not A.understood(form, z.ok) or any(A.atoms_[a][0] != "leaf" for a in rest):
            unknown = False, f"{label}: whether it is made of fresh random numbers: {A.show(form)[:200]}"
            continue
        parts = {abs(k) if len([1 for a, _ in m if a in draws]) == 1 == sum(e for a, e in m if a != A.I) else None for m, k in form.n.t.items()}
        if rest or not form.d.is_const() or parts != {abs(form.d.cval())} or len(draws) != size or len(form.n.t) != size or size == 2 and sorted(
                any(a == A.I for a, _ in m) for m in form.n.t) != [False, True]:
            return sure, f"{label} is not the documented function of random numbers drawn for it: the standardised value is {A.show(form)[:200]}"
        for a in draws:
            if a in seen and seen[a] != label:
                return sure, f"{label} and {seen[a]} are made of the same random number"
            seen[a] = label
    return unknown


def elements(z, x):
    s = z.it.shape(x)
    if s is None or not all(isinstance(d, int) for d in s):
        return None
    return [(ix, z.el(x, *ix)) for ix in itertools.product(*[range(d) for d in s])]


def each(z, forms):
    xs = elements(z, z.result)
    return None if xs is None else [(f"element {ix}", forms(z, x)) for ix, x in xs]


def scaled(z, n):
    """Ellipticities over the scale of their population."""
    which = [k for k, m in enumerate(n) for _ in range(m)]
    return [(f"element {ix}", z.A.div(z.A.of(x), z.A.of(z.el(z.args["sigma"], which[ix[0]])))) for ix, x in elements(z, z.result) or ()]


def gaussian(c):
    for n, depth in (((1,), 4), ((2,), 6), ((1, 1), 5)):
        sampler(c, "resampled values", f"Gaussian ellipticities, populations of {n}", "glass.shapes:ellipticity_gaussian", "gauss_shapes",
                lambda z: {"count": z.carr((len(n),), n), "sigma": z.arr("sigma", (len(n),))}, lambda z: each(z, modulus), domains={"sigma": (0.2, 2)}, depth=depth,
                law=lambda z: scaled(z, n), size=2)


def photometric(c):
    rule, anchor = "resampled values", "glass.galaxies:gaussian_phz"
    for n, sig, low, up in (((), (), None, ()), ((), (), (), ()), ((), (), (), None), ((2,), (), None, ()), ((2,), (2,), (), ()), ((2,), (), (2,), (2,)), ((2,), (2,), (2,), None),
                            ((2,), (), None, (2,)), ((), (2,), (2,), None), ((2,), (), None, None), ((1, 2), (2,), (1, 2), (1, 2))):
        def word(b):
            return "not given" if b is None else f"of shape {b}" if b else "a number"

        def bind(z):
            return {"z": z.arr("z", n), "sigma": z.arr("sigma", sig)} | {k: z.const(None) if b is None else z.arr(k, b) for k, b in (("lower", low), ("upper", up))}

        def bounds(z):
            def at(k, b, ix):
                b = (low, up)[k]
                return z.A.of(z.el(z.args[("lower", "upper")[k]], *ix[len(ix) - len(b):]))
            out = []
            for ix, x in elements(z, z.result) or ():
                x = z.A.of(x)
                d = z.A.sub(z.A.C(0) if low is None else at(0, low, ix), x)
                out.append((f"redshift {ix}", [("at least the lower bound", d, [d])]))
                if up is not None:
                    d = z.A.sub(x, at(1, up, ix))
                    out.append((f"redshift {ix}", [("at most the upper bound", d, [d])]))
            return out or None
        def law(z):
            A = z.A
            out = []
            for ix, x in elements(z, z.result) or ():
                m, s = (A.of(z.el(z.args[k], *ix[len(ix) - len(b):])) for k, b in (("z", n), ("sigma", sig)))
                out.append((f"redshift {ix}", A.div(A.sub(A.of(x), m), A.mul(A.add(A.C(1), m), s))))
            return out
        size = 1 if not n and not sig else 2
        sampler(c, rule, f"photometric redshifts of shape {n}, errors of shape {sig}, lower bound {word(low)}, upper bound {word(up)}", anchor, "phz", bind, bounds, depth=2 + (2 if len(n) > 1 else 4) * size,
                domains={"lower": (-1, 0.5), "upper": (0.7, 2), "sigma": (0.2, 2)}, law=law)


def intrinsic(c):
    for n in ((1,), (2,), (1, 1)):
        sampler(c, "transformed values", f"intrinsic normal ellipticities, populations of {n}", "glass.shapes:ellipticity_intnorm", "norm_shapes",
                lambda z: {"count": z.carr((len(n),), n), "sigma": z.arr("sigma", (len(n),))}, lambda z: each(z, modulus), domains={"sigma": (0.1, 0.7)}, depth=4, positive=True)


def ratio(it, kw):
    s = it.shape(kw.get("zeta"))
    return (None, None) if s is None else (it.result_of("triaxial_axis_ratio", s), ("zeta", "xi"))


def ryden(c):
    rule, anchor = "resampled values", "glass.shapes:ellipticity_ryden04"

    def bounds(z):
        A, it = z.A, z.it
        out = []
        for _, kw in it.cfg.log:
            for ix, zeta in elements(z, kw["zeta"]) or ():
                zeta, xi = A.of(zeta), A.of(z.el(kw["xi"], *ix))
                w = A.log(A.sub(A.C(1), zeta))
                out.append((f"the first axis ratio {ix}", [("at least zero", A.negate(zeta), [w]), ("at most one", A.sub(zeta, A.C(1)), [])]))
                out.append((f"the second axis ratio {ix}", [("at least zero", A.negate(xi), [A.negate(A.div(xi, zeta))]),
                                                           ("at most the first", A.sub(xi, zeta), [A.sub(A.div(xi, zeta), A.C(1))])]))
        shapes = each(z, modulus)
        return None if shapes is None or not out else out + shapes
    names = ("mu", "sigma", "gamma", "sigma_gamma")

    def law(z):
        A, out = z.A, []
        for _, kw in z.it.cfg.log:
            for ix, zeta in elements(z, kw["zeta"]) or ():
                zeta, xi = A.of(zeta), A.of(z.el(kw["xi"], *ix))
                mu, s, m, t = (A.of(z.el(z.args[k], *ix)) for k in names)
                out.append((f"the first axis ratio {ix}", A.div(A.sub(A.log(A.sub(A.C(1), zeta)), mu), s)))
                out.append((f"the second axis ratio {ix}", A.div(A.sub(A.sub(A.C(1), A.div(xi, zeta)), m), t)))
        return out
    for n, depth in (((), 4), ((1,), 6), ((2,), 8)):
        sampler(c, rule, f"Ryden (2004) ellipticities of shape {n}", anchor, "ryden", lambda z: {k: z.arr(k, n) for k in names}, bounds, depth=depth,
                domains={"mu": (-3, 0.5), "sigma": (0.2, 2), "gamma": (0, 1), "sigma_gamma": (0.1, 1), "triaxial_axis_ratio": (0, 1)},
                opaque={"glass.shapes:triaxial_axis_ratio"}, records={"triaxial_axis_ratio": ratio}, law=law if n else None)


def ratios(c):
    def bounds(z):
        out = []
        for ix, q in elements(z, z.result) or ():
            q = z.A.of(q)
            out.append((f"element {ix}", [("at least zero", z.A.negate(q), []), ("at most one", z.A.sub(q, z.A.C(1)), [])]))
        return out or None
    for n in ((), (2,)):
        sampler(c, "transformed values", f"projected axis ratios of shape {n}", "glass.shapes:triaxial_axis_ratio", "axis_ratio",
                lambda z: {"zeta": z.arr("zeta", n), "xi": z.arr("xi", n)}, bounds, domains={"zeta": (0.6, 1), "xi": (0.1, 0.6)})


def latitudes(c):
    def bounds(z):
        out = []
        for k, p in enumerate(z.items(z.result) or ()):
            for ix, lat in elements(z, z.items(p)[1]) or ():
                lat = z.A.of(lat)
                out.append((f"latitude {ix} of population {k}", [(f"{w} 90 degrees", z.A.sub(x, z.A.C(90)), []) for w, x in (("at most", lat), ("at least -", z.A.negate(lat)))]))
        return out or None
    for n in ((), (2,)):
        sampler(c, "transformed values", f"uniform positions, densities of shape {n}", "glass.points:uniform_positions", "uniform", lambda z: {"ngal": z.arr("ngal", n)}, bounds,
                counts=lambda it, s: it.carrf(s, [2, 1][:max(1, sum(s))]) if s else it.g.const(2))


def counts(c):
    def bounds(z):
        out = []
        for f, kw in z.it.cfg.log:
            if f == "poisson":
                out += [(f"expected count {ix}", [("at least zero", z.A.negate(z.A.of(x)), [])]) for ix, x in elements(z, kw["lam"]) or ()]
        return out or None
    domains = {"ngal": (0, 2), "vis": (0, 1), "delta": (-1, 3), "b": (0.2, 3)}
    for bias, vis, mono in itertools.product((False, True), repeat=3):
        sampler(c, "expected counts", f"expected counts, {'with' if bias else 'no'} bias, {'with' if vis else 'no'} visibility, monopole {'removed' if mono else 'kept'}",
                "glass.points:positions_from_delta", "counts",
                lambda z: {"ngal": z.arr("ngal"), "delta": z.arr("delta", (3,)), "b": z.arr("b") if bias else z.const(None), "vis": z.arr("vis", (3,)) if vis else z.const(None),
                           "mono": mono}, bounds, domains=domains, counts=lambda it, s: it.carrf(s, [0] * 3))
    sampler(c, "expected counts", "uniform positions", "glass.points:uniform_positions", "uniform", lambda z: {"ngal": z.arr("ngal")}, bounds, domains=domains,
            counts=lambda it, s: it.g.const(2))
