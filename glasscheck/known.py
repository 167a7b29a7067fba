"""Evaluating functions for known structure: numbers of fields, lengths and shapes are constants."""

from __future__ import annotations

from .alg import Alg
from .elem import Elements
from .fold import Config, analyse
from .ir import Graph, show
from .util import HP, symbols, with_specs


class Case:
    """One evaluation of a program of specs/<module>.py with arguments of known structure."""

    def __init__(self, c, module, prog, primitives=(), prims=(HP,), backend="numpy", rules=None, real=True, graph=None, elementwise=None, draws=None):
        self.c = c
        self.p = with_specs(c.project, module)
        self.g = graph or Graph()
        self.q = f"spec_{module}:{prog}"
        self.cfg = dict(primitives=set(primitives), primitive_prefix=list(prims), backend=backend)
        self.rules = dict(rules or {})
        self.elementwise = dict(elementwise or {})
        self.draws = dict(draws or {})
        self.b = symbols(self.p, self.g, self.q, notnull=())
        for n in self.b.values():
            if n.meta:
                n.meta["notnull"] = True
        self.it = None
        self.oracle = None
        self.cls = None
        self.opaque = set()
        self.mk = lambda: Alg(real=real, fill=True)

    def arr(self, name, shape=()):
        n = self.g.mk("param", (), (self.q, name))
        n.meta = {"ann": None, "notnull": True, "default": None, "name": name, "shape": shape}
        return n

    def carr(self, shape, data):
        """An array of known numbers."""
        return self.g.mk("carr", (), (tuple(shape), tuple(data)))

    def const(self, v):
        return self.g.const(v)

    def tuple(self, xs):
        return self.g.tuple(list(xs))

    def run(self, **bind):
        for k, v in bind.items():
            self.b[k] = v if hasattr(v, "op") else self.g.const(v)
        cfg = Config(**self.cfg)
        cfg.shape_rules = self.rules
        cfg.elementwise = self.elementwise
        cfg.draw_rules = self.draws
        cfg.oracle = self.oracle
        self.configure(cfg)
        self.it = analyse(self.p, self.q, cfg, bind=dict(self.b), graph=self.g, cls=self.cls)
        self.c.count(self.it)
        self.E = self.it.elements if hasattr(self.it, "elements") else Elements(self.it)
        self.A = self.mk()
        self.result = self.it.freeze(self.it.result) if self.it.result is not None else None
        return self

    def configure(self, cfg):
        pass

    @property
    def lost(self):
        it = self.it
        return it.result is None or it.broken or bool(it.gaps) or it.result.op == "never"

    @property
    def fails(self):
        """Why every path ends in an error, or None."""
        it = self.it
        if it.result is not None and it.result.op != "never" or it.broken not in (None, "no path returns") or it.gaps:
            return None
        for e in it.events:
            if e.kind == "raise":
                return f"every path raises {e.info.get('exc')}"
            if e.kind == "assert" and self.g.truth(e.node) is False:
                return "an assertion fails on every path"
        return None

    def why(self):
        raises = [e.info for e in self.it.events if e.kind == "raise"]
        return str(self.it.broken or self.it.gaps[:1] or (raises[:1] if self.result is None else show(self.result, 4)))[:200]

    def items(self, n=None):
        """Items of a sequence, or None."""
        n = self.result if n is None else n
        if n is None:
            return None
        if n.op in ("tuple", "list") and not any(a.op == "star" for a in n.args):
            return list(n.args)
        return self.it.concrete_items(self.it.iter_value(n))

    def el(self, n, *idx):
        return self.E.at(n, idx)

    def leafcall(self, n):
        """Results of these functions are independent quantities."""
        return n.op == "call" and n.data[0] in self.opaque

    def ok(self, name, node):
        return name.startswith("complex64") or not name.startswith(("phi", "where", "masked", "update", "comp", "ucall", "listof", "append", "index", "mcall")) \
            if name != "leaf" else (node is not None and node.op in ("el", "const", "param", "draw", "uninitialised", "pos") and
                                    (node.op != "el" or node.args[0].op in ("param", "draw") or self.leafcall(node.args[0])))

    def same(self, x, y):
        """True, False (definitely different) or None; x a value of the package, y the expected node or RF."""
        if x is y:
            return True
        u = self.A.of(x)
        v = y if not hasattr(y, "op") else self.A.of(y)
        if self.A.eq(u, v):
            return True
        if self.lost:
            return None
        if undefined(u, x) and not undefined(v, y) and self.A.understood(v, self.ok):
            return False
        if not self.A.understood(u, self.ok):
            return None
        return False if self.A.differ(u, v) else None

    def show(self, x):
        return self.A.show(self.A.of(x) if hasattr(x, "op") else x)[:160]


def undefined(form, node):
    """The value is a division by zero or not a number."""
    while hasattr(node, "op") and node.op == "el" and node.args:
        node = node.args[0]
    if not hasattr(node, "op"):
        return form.d.zero()
    return form.d.zero() or node.op == "const" and isinstance(node.data, float) and node.data != node.data or node.op == "ext" and node.data in ("nan", "math.nan", "numpy.nan", "np.nan")


def verdict(c, rule, name, pairs, case, loc=None, detail=""):
    """Obligation that every (label, value, expected) agrees."""
    res = True
    n = 0
    if case.fails:
        c.bad(rule, name, case.fails, loc)
        return
    if case.lost or pairs is None:
        c.unk(rule, name, case.why(), loc)
        return
    for label, x, y in pairs:
        n += 1
        r = case.same(x, y) if x is not None else None
        if r is False:
            c.bad(rule, name, f"{label} is {case.show(x)} instead of {case.show(y)}", loc)
            return
        if r is None and res is True:
            res = None
            detail = f"{label}: {case.show(x) if x is not None else 'not known'}"
    c.decide(res, rule, name, detail or f"{n} values", loc)


class PosAlg(Alg):
    """Algebra in which some quantities are known to be positive."""

    def __init__(self, positive=(), **kw):
        super().__init__(**kw)
        self.pos = list(positive)
        self.phis = True
        self.generic = ("param", "const", "el", "pos")

    def sign(self, r):
        """1, 0 or -1 if known, else None."""
        r = self.norm(r)
        if r.zero():
            return 0
        pos = {a for n in self.pos for a in self.of(n).atoms()}

        for name in ("max", "min"):
            xs = self.single(r, name)
            if xs:
                ss = [self.sign(x) for x in xs]
                if name == "min":
                    ss = [None if x is None else -x for x in ss]
                known = [x for x in ss if x is not None]
                top = max(known) if known and (len(known) == len(ss) or max(known) == 1) else None
                return top if name == "max" or top is None else -top

        def good(a):
            return a in pos or self.atoms_[a][0] in ("sqrt", "exp")
        s = 1
        for p in (r.n, r.d):
            t = {1 if k > 0 else -1 for k in p.t.values()}
            if len(t) != 1 or any(not good(a) and e % 2 for m in p.t for a, e in m) or not any(all(good(a) for a, e in m) for m in p.t):
                return None
            s *= t.pop()
        return s

    def holds(self, c):
        if c.op == "not":
            h = self.holds(c.args[0])
            return None if h is None else not h
        if c.op == "const":
            return bool(c.data)
        if c.op in ("and", "or") or c.op == "call" and c.data[0] in ("any", "all"):
            hs = [self.holds(a) for a in c.args]
            stop = c.op == "or" or c.op == "call" and c.data[0] == "any"
            return stop if stop in hs else None if None in hs else not stop
        if c.op == "call" and c.data[0] == "builtins.bool" and len(c.args) == 1:
            return self.holds(c.args[0])
        if c.op == "cmp" and c.data in ("<", "<=", "==", "!=") and len(c.args) == 2:
            s = self.sign(self.sub(self.of(c.args[1]), self.of(c.args[0])))
            if s is not None:
                return {"<": s > 0, "<=": s >= 0, "==": s == 0, "!=": s != 0}[c.data]
        return None

    def choose(self, n):
        while n.op == "phi":
            h = self.holds(n.args[0])
            if h is None:
                return super().choose(n)
            n = n.args[1 if h else 2]
        return n

    def known(self, base, args, kw):
        if base == "where" and len(args) == 3:
            h = self.holds(args[0])
            if h is not None:
                return self.of(args[1 if h else 2])
        return super().known(base, args, kw)


class Signs:
    """Decisions from known signs of elements: +1, 0 or -1 for (array, index).

    With a salt, conditions that the signs do not decide are decided at a generic point with these signs.
    """

    def __init__(self, z, signs, salt=None):
        self.z = z
        self.salt = salt
        self.signs = signs      # [(array, index, sign)]
        z.oracle = self.decide
        z.mk = self.alg

    def alg(self):
        g = self.z.g
        A = PosAlg(fill=True)
        for n, idx, s in self.signs:
            e = g.mk("el", (n,), tuple(idx))
            if s > 0:
                A.pos.append(e)
                continue
            p = g.mk("pos", (e,), ())
            if s < 0:
                A.pos.append(p)
            A.subst[e.id] = A.negate(A.of(p)) if s < 0 else A.C(0)
        return A

    def decide(self, it, c):
        E = Elements(it)
        A = self.alg()

        def expand(c):
            if c.op in ("not", "and", "or"):
                return it.g.mk(c.op, tuple(expand(a) for a in c.args), c.data)
            return E.at(c, ())
        e = expand(c)
        h = A.holds(e)
        return A.truth(e, self.salt) if h is None and self.salt is not None else h
