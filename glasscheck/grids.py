"""Evaluation with functions given on grids of known order.

Grids have known numbers of samples and symbolic values in a known order; integrals and interpolations
over them become sums over the samples.  Which cell of a grid an interpolated position lies in is
decided by the known order or, if that does not say, by a choice that the case enumerates.
"""

from __future__ import annotations

import hashlib
import itertools
import math
from fractions import Fraction

from .alg import Alg
from .decide import Deciding
from .elem import ELEMWISE, Elements
from .ir import Graph
from .known import Case, PosAlg

# functions of numbers
FUNCTIONS = (ELEMWISE - {"clip"}) | {"erf", "max", "min", "not", "and", "or", "argmax", "argmin", "any", "all"}
ORDER = ("<", "<=", ">", ">=", "==", "!=")


def strip(n):
    while n.op == "call" and n.data[0].rpartition(".")[2] in ("asarray", "float", "astype", "copy", "array") and n.args:
        n = n.args[0]
    return n


def number(n):
    """Number of a constant, or None."""
    n = strip(n)
    if n.op == "const" and isinstance(n.data, (int, float)) and not isinstance(n.data, bool):
        return n.data
    name = n.data.rpartition(".")[2] if n.op == "ext" else n.data[1] if n.op == "nsfn" else None
    return {"nan": math.nan, "inf": math.inf}.get(name)


def degrees(size):
    """Degrees of the harmonic coefficients in HEALPix order (m first), or None."""
    n = 0
    while n * (n + 1) // 2 < size:
        n += 1
    return [l for m in range(n) for l in range(m, n)] if n * (n + 1) // 2 == size else None


class GridElements(Elements):
    def _at(self, n, idx):
        if n.op == "masked" and len(n.args) == 2:
            r = self.bat(n.args[0], idx)
            if r is not None:
                return r
        return super()._at(n, idx)

    def call(self, n, idx):
        f, names = n.data
        ns, _, base = f.rpartition(".")
        it, g = self.it, self.g
        kw = dict(zip(names, n.args))
        top = ns.split(".")[0]
        if f == "hp.almxfl" and len(idx) == 1:
            s, t = self.shape(kw["alm"]), self.shape(kw["fl"])
            if s and t and isinstance(s[0], int) and isinstance(t[0], int):
                ell = degrees(s[0])
                if ell is not None:
                    if ell[idx[0]] >= t[0]:
                        return g.const(0.0)
                    return it.binop("*", self.at(kw["alm"], idx), self.at(kw["fl"], (ell[idx[0]],)))
        if f == "builtins.float" and len(n.args) == 1:
            return self.at(n.args[0], tuple(0 for _ in self.shape(n.args[0]) or ()))
        if ns == "method":
            xs = [self.bat(a, idx) for a in n.args]
            if base in it.cfg.flat and None not in xs and number(xs[0]) == 0:
                return g.const(0.0)
            return self.leaf(n, idx) if None in xs else g.mk("call", tuple(xs), n.data)
        if top in ("xp", "np", "jnp", "uxpx", "xpx", "math", "scipy", ""):
            if base == "expand_dims" and self.shape(n) is not None:
                a = kw["axis"].data % len(idx)
                return self.at(n.args[0], idx[:a] + idx[a + 1:])
            if base == "moveaxis":
                s, p = it.moved(kw)
                if p is not None:
                    return self.at(n.args[0], tuple(idx[p.index(k)] for k in range(len(p))))
            if base == "squeeze":
                s, p = it.squeezed(kw)
                if p is not None:
                    return self.at(n.args[0], tuple(idx[p.index(k)] if k in p else 0 for k in range(len(s))))
            if base == "apply_where" and len(n.args) == 3 and self.shape(n) is not None:
                t, a, b = (self.bat(x, idx) for x in n.args)
                if None not in (t, a, b):
                    h = it.ordered(t)
                    return (a if h else b) if h is not None else t.data and a or b if t.op == "const" else it.mkphi(t, a, b)
            if base == "einsum":
                r = self.einsum(n, idx)
                if r is not None:
                    return r
            if base == "trapezoid":
                r = self.trapezoid(kw, idx)
                if r is not None:
                    return r
            if base == "interp":
                r = it.interp_at(kw, idx)
                if r is not None:
                    return r
            if base == "gradient" and len(n.args) == 1 and len(idx) == 1:
                s = self.shape(n.args[0])
                if s and len(s) == 1 and isinstance(s[0], int) and s[0] > 1:
                    k = idx[0]
                    a, b = max(k - 1, 0), min(k + 1, s[0] - 1)
                    return it.binop("/", it.binop("-", self.at(n.args[0], (b,)), self.at(n.args[0], (a,))), g.const(b - a))
            if base == "erf" and len(n.args) == 1:
                return g.mk("call", (self.at(n.args[0], idx),), n.data)
        return super().call(n, idx)

    def einsum(self, n, idx):
        p = self.it.subscripts(n)
        if p is None:
            return None
        ops, out, size = p
        at = dict(zip(out, idx))
        over = sorted({k for o in ops for k in o} - set(out), key=str)
        if math.prod(size[k] for k in over) > 256:
            return None
        total = []
        for ix in itertools.product(*[range(size[k]) for k in over]):
            at.update(zip(over, ix))
            r = None
            for o, x in zip(ops, n.args[1:]):
                v = self.at(x, tuple(at[k] for k in o))
                r = v if r is None else self.it.binop("*", r, v)
            total.append(r)
        return self.sum(total)

    def trapezoid(self, kw, idx):
        it, g = self.it, self.g
        y, x, dx, ax = kw.get("y"), kw.get("x"), kw.get("dx"), kw.get("axis")
        if y is None or ax is not None and not (ax.op == "const" and isinstance(ax.data, int)):
            return None
        s = self.shape(y)
        if not s:
            return None
        a = -1 if ax is None else ax.data
        a %= len(s)
        if not isinstance(s[a], int) or s[a] > 64:
            return None
        if x is not None and x.op == "const" and x.data is None:
            x = None
        if dx is not None and self.shape(dx) == ():
            dx = self.at(dx, ())
        sx = self.shape(x) if x is not None else None
        if x is not None and (sx is None or len(sx) not in (1, len(s))):
            return None

        def yk(k):
            return self.at(y, idx[:a] + (k,) + idx[a:])

        def xk(k):
            if len(sx) == 1:
                return self.at(x, (k,))
            return self.bat(x, idx[:a] + (k,) + idx[a:])
        out = []
        for k in range(s[a] - 1):
            w = it.binop("-", xk(k + 1), xk(k)) if x is not None else (dx if dx is not None else g.const(1.0))
            out.append(it.binop("/", it.binop("*", w, it.binop("+", yk(k), yk(k + 1))), g.const(2.0)))
        return self.sum(out) if out else g.const(0.0)


class Gridded(Deciding):
    guesses = 0

    def positions(self, n):
        k = self.guesses
        r = super().positions(n)
        return r if self.guesses == k else None

    @property
    def elements(self):
        if self._elements is None:
            self._elements = GridElements(self)
        return self._elements

    @staticmethod
    def boolish(n):
        return Deciding.boolish(n) or n.op == "bin" and n.data in ("&", "|") and all(Gridded.boolish(a) for a in n.args) or \
            n.op == "call" and n.data[0].rpartition(".")[2] in ("logical_and", "logical_or", "logical_not", "isnan", "isfinite")

    # ---------------------------------------------------------------- order
    def rank(self, n):
        """Known position of a grid value, or None."""
        n = strip(n)
        if n.op == "const" and isinstance(n.data, (int, float)) and not isinstance(n.data, bool):
            return Fraction(n.data) if n.data in (0, 1) or self.cfg.anyconst and n.data == n.data and abs(n.data) != float("inf") else None
        if n.op == "index":
            n = self.elements.at(n, ()) if self.shape(n) == () else n
            n = strip(n)
        if n.op == "el" and n.args[0].op == "param":
            r = self.cfg.ranks.get((n.args[0].data[1], *n.data))
            return None if r is None else Fraction(r)
        if n.op == "param":
            r = self.cfg.ranks.get((n.data[1],))
            return None if r is None else Fraction(r)
        return None

    def place(self, n):
        p = super().place(n)
        r = self.rank(self.freeze(n)) if p is None else None
        return p if r is None else ("rank", r)

    def ordered(self, c):
        neg = False
        while c.op == "not" or c.op == "un" and c.data == "~":
            c, neg = c.args[0], not neg
        if c.op in ("and", "or") or c.op == "bin" and c.data in ("&", "|"):
            ts = [self.ordered(a) for a in c.args]
            stop = c.op == "or" or c.data == "|"
            if None in ts:
                return None if stop not in ts else stop != neg
            return (any(ts) if stop else all(ts)) != neg
        if c.op == "cmp" and c.data in ORDER and len(c.args) == 2:
            a, b = self.rank(c.args[0]), self.rank(c.args[1])
            if a is None or b is None:
                a, b = (number(x) for x in c.args)
                if a is None or b is None:
                    return None
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[c.data] != neg
        return None

    def known(self, c):
        if c.op == "const" and isinstance(c.data, bool):
            return c.data
        if c.op == "call" and c.data[0].rpartition(".")[2] in ("isnan", "isfinite", "isinf") and len(c.args) == 1:
            x = number(c.args[0])
            if x is not None:
                return bool(getattr(math, c.data[0].rpartition(".")[2])(x))
        if c.op == "call" and c.data[0].rpartition(".")[2] in ("all", "any") and len(c.args) == 1:
            xs = self.elements.all(c.args[0])
            if xs and len(xs) <= 16:
                hs = [self.known(x) for _, x in xs]
                stop = c.data[0].endswith("any")
                return stop if stop in hs else None if None in hs else not stop
        r = self.ordered(c)
        if r is None and c.op in ("cmp", "and", "or", "not", "un"):
            try:
                e = self.elements.at(c, ()) if self.shape(c) == () else c
            except Exception:
                e = c
            r = self.ordered(e)
        return super().known(c) if r is None else r

    # ------------------------------------------------------------- building
    def array(self, xs):
        """An array of known elements."""
        return self.call_node("xp.stack", [self.mklist(self.g.tuple(list(xs)))], [])

    def nested(self, shape, xs):
        xs = list(xs)
        if not shape:
            return xs[0]
        k = len(xs) // shape[0] if shape[0] else 0
        return self.array([self.nested(shape[1:], xs[i * k:(i + 1) * k]) for i in range(shape[0])])

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs, e):
        if f.op == "vectorized" and len(args) == 1 and not kwargs:
            x = self.freeze(args[0])
            s = self.shape(x)
            if s is not None and all(isinstance(d, int) for d in s):
                return self.nested(s, [self.call(f.args[0], [v], [], e) for _, v in self.elements.all(x, s)])
        return super().call(f, args, kwargs, e)

    def call_func(self, f, args, kwargs):
        return self.recorded(super().call_func(f, args, kwargs))

    def call_node(self, fname, args, kwargs):
        return self.recorded(super().call_node(fname, args, kwargs))

    def recorded(self, n):
        """Calls whose results are independent quantities; their arguments are compared on their own."""
        if n is None or n.op != "call" or not self.cfg.records:
            return n
        f = n.data[0]
        head, _, base = f.rpartition(".")
        name = f
        if head.rpartition(".")[2] == "linalg" or base.startswith("linalg_"):
            name = base.removeprefix("linalg_")
        elif ":" in base:
            name = base.rpartition(":")[2]
        rule = self.cfg.records.get(name)
        if rule is None:
            return n
        kw = dict(zip(n.data[1], n.args))
        r, names = rule(self, kw)
        if r is None:
            return n
        if names is not None:
            self.cfg.log.append((name, {k: kw.get(k) for k in names}))
        return r

    def result_of(self, name, shape):
        """The unknown result of the next recorded call of a function."""
        k = sum(f == name for f, _ in self.cfg.log)
        n = self.g.mk("param", (), ("arg", f"{name}{k}"))
        n.meta = {"ann": None, "notnull": True, "default": None, "name": f"{name}{k}", "shape": tuple(shape)}
        return n

    def call_method(self, b, name, args, kwargs, e):
        if name in self.cfg.methods and b.op == "param":
            kw = {k: self.freeze(v) for k, v in kwargs if k}
            args = [self.freeze(a) for a in args]
            if name in self.cfg.flat and len(args) + len(kw) == 2:
                a, b = (self.call_method(b, name, [x], [], e) for x in (*args, *kw.values()))
                return self.binop("-", b, a)
            return self.g.mk("call", (*args, *kw.values()), (f"method.{name}", (*map(str, range(len(args))), *kw)))
        return super().call_method(b, name, args, kwargs, e)

    def _shape(self, n, depth):
        if n.op in ("ext", "nsfn") and number(n) is not None:
            return ()
        if n.op == "masked" and len(n.args) == 2:
            return self.shape(n.args[0], depth)
        if n.op == "attr" and n.args[0].op == "param" and n.data in self.cfg.attrs:
            return ()
        return super()._shape(n, depth)

    def call_ns(self, ns, name, args, kwargs):
        kw = dict(kwargs)
        if name == "apply_along_axis" and len(args) >= 3 and args[1].op == "const" and isinstance(args[1].data, int):
            x = self.freeze(args[2])
            s = self.shape(x)
            if s and all(isinstance(d, int) for d in s):
                a = args[1].data % len(s)
                outer = [s[k] for k in range(len(s)) if k != a]
                outs = []
                for ix in itertools.product(*[range(d) for d in outer]):
                    y = self.array([self.elements.at(x, ix[:a] + (k,) + ix[a:]) for k in range(s[a])])
                    outs.append(self.freeze(self.call(args[0], [y, *args[3:]], list(kwargs), None)))
                if not outer:
                    return outs[0]
                if a == len(s) - 1:
                    return self.nested(outer, outs)
        if (name == "unique_values" and len(args) == 1 or name == "union1d" and len(args) == 2) and not kw:
            r = self.union(args)
            if r is not None:
                return r
        return super().call_ns(ns, name, args, kwargs)

    def call_xpx(self, name, args, kwargs, e):
        if name == "union1d" and len(args) >= 2:
            r = self.union(args[:2])
            if r is not None:
                return r
        return super().call_xpx(name, args, kwargs, e)

    def union(self, args):
        pts = {}
        for x in args:
            x = self.freeze(x)
            s = self.shape(x)
            if s is None or len(s) != 1 or not isinstance(s[0], int):
                return None
            for k in range(s[0]):
                v = self.elements.at(x, (k,))
                r = self.rank(v)
                if r is None:
                    return None
                pts.setdefault(r, v)
        return self.array([pts[r] for r in sorted(pts)])

    def call_shape(self, n, depth):
        f, names = n.data
        ns, _, base = f.rpartition(".")
        kw = dict(zip(names, n.args))
        if base == "trapezoid" and "y" in kw:
            s, ax = self.shape(kw["y"], depth), kw.get("axis")
            if s and (ax is None or ax.op == "const" and isinstance(ax.data, int)):
                a = (-1 if ax is None else ax.data) % len(s)
                return s[:a] + s[a + 1:]
        if base == "interp" and "x" in kw:
            return self.shape(kw["x"], depth)
        if ns == "method" and n.args:
            return self.shape(n.args[0], depth)
        if f == "builtins.float":
            return ()
        if base == "expand_dims" and "axis" in kw:
            s, ax = self.shape(kw.get("x", kw.get("a")), depth), kw["axis"]
            if s is not None and ax.op == "const" and isinstance(ax.data, int):
                a = ax.data % (len(s) + 1)
                return s[:a] + (1,) + s[a:]
            return None
        if base == "moveaxis":
            s, p = self.moved(kw, depth)
            return None if p is None else tuple(s[k] for k in p)
        if base == "apply_where" and len(n.args) == 3:
            return self.shape(n.args[0], depth)
        if base == "einsum":
            p = self.subscripts(n, depth)
            return None if p is None else tuple(p[2][k] for k in p[1])
        if base == "squeeze":
            s, p = self.squeezed(kw, depth)
            return None if p is None else tuple(s[k] for k in p)
        if f == "hp.almxfl":
            return self.shape(kw["alm"], depth)
        if base in ("gradient", "erf") and len(n.args) == 1:
            return self.shape(n.args[0], depth)
        return super().call_shape(n, depth)

    def subscripts(self, n, depth=0):
        """(labels of the operands, labels of the result, sizes) of an einsum, or None."""
        if not n.args or n.args[0].op != "const" or not isinstance(n.args[0].data, str) or "->" not in n.args[0].data and "," not in n.args[0].data:
            return None
        left, arrow, right = n.args[0].data.replace(" ", "").partition("->")
        ins = left.split(",")
        if len(ins) != len(n.args) - 1:
            return None
        ops, size, extra = [], {}, 0
        for t, x in zip(ins, n.args[1:]):
            s = self.shape(x, depth)
            if s is None or not all(isinstance(d, int) for d in s):
                return None
            a, dots, b = t.partition("...")
            m = len(s) - len(a) - len(b)
            if m < 0 or m and not dots:
                return None
            extra = max(extra, m)
            lab = [*a, *[("dim", k - m) for k in range(m)], *b]
            for k, d in zip(lab, s):
                if size.setdefault(k, d) != d:
                    return None
            ops.append(lab)
        dims = [("dim", k - extra) for k in range(extra)]
        if arrow:
            a, dots, b = right.partition("...")
            out = [*a, *(dims if dots else []), *b]
        else:
            letters = "".join(k for k in left if k.isalpha())
            out = dims + sorted(k for k in set(letters) if letters.count(k) == 1)
        return ops, out, size

    def moved(self, kw, depth=0):
        s, a, b = self.shape(kw.get("x", kw.get("a")), depth), kw.get("source"), kw.get("destination")
        if s is None or None in (a, b):
            return None, None
        a, b = ([x.data] if x.op == "const" else [y.data for y in x.args if y.op == "const"] if x.op == "tuple" else [] for x in (a, b))
        if not a or len(a) != len(b) or not all(isinstance(x, int) for x in (*a, *b)):
            return None, None
        a, b = [x % len(s) for x in a], [x % len(s) for x in b]
        p = [k for k in range(len(s)) if k not in a]
        for d, k in sorted(zip(b, a)):
            p.insert(d, k)
        return s, p

    def squeezed(self, kw, depth=0):
        s, ax = self.shape(kw.get("x", kw.get("a")), depth), kw.get("axis")
        if s is None:
            return None, None
        if ax is None or ax.op == "const" and ax.data is None:
            drop = [k for k, d in enumerate(s) if d == 1]
        elif ax.op == "const" and isinstance(ax.data, int):
            drop = [ax.data % len(s)]
        else:
            return None, None
        return s, [k for k in range(len(s)) if k not in drop]

    # -------------------------------------------------------- interpolation
    def interp_at(self, kw, idx):
        x, xs, fs = kw.get("x"), kw.get("xp", kw.get("x_points")), kw.get("fp", kw.get("y_points"))
        p = kw.get("period")
        if None in (x, xs, fs) or p is not None and not (p.op == "const" and p.data is None):
            return None
        s = self.shape(xs)
        if s is None or len(s) != 1 or not isinstance(s[0], int) or self.shape(fs) != s:
            return None
        n = s[0]
        E = self.elements
        v = E.bat(x, idx)
        X = [E.at(xs, (k,)) for k in range(n)]
        F = [E.at(fs, (k,)) for k in range(n)]
        if v is None:
            return None
        cell, exact = self.cell(v, X)
        if cell is None:
            return None
        if exact:
            return F[cell]

        def side(name, default):
            w = kw.get(name)
            if w is None or w.op == "const" and w.data is None:
                return default
            return self.elements.at(w, ()) if self.shape(w) == () else w
        if cell < 0:
            return side("left", F[0])
        if cell >= n - 1:
            return side("right", F[-1])
        t = self.binop("/", self.binop("-", v, X[cell]), self.binop("-", X[cell + 1], X[cell]))
        return self.binop("+", F[cell], self.binop("*", t, self.binop("-", F[cell + 1], F[cell])))

    def cell(self, v, X):
        """(cell, lies exactly on its first sample) of a position."""
        r = self.rank(v)
        R = [self.rank(q) for q in X]
        if r is not None and None not in R and all(a < b for a, b in zip(R, R[1:])):
            if r in R:
                return R.index(r), True
            return sum(q < r for q in R) - 1, False
        if self.cfg.cells is None:
            return None, False
        mem = self.cfg.mem
        if "alg" not in mem:
            mem["alg"], mem["seen"] = self.cfg.mkalg(), []
        A, seen = mem["alg"], mem["seen"]
        w = [A.of(q) for q in X]
        u = A.of(v)
        for k, q in enumerate(w):
            if A.eq(u, q):
                return k, True
        # positions relative to the grid do not depend on its scale
        t = [A.div(A.sub(u, w[0]), A.sub(w[-1], w[0])), *[A.div(A.sub(q, w[0]), A.sub(w[-1], w[0])) for q in w[1:-1]]]
        for k, (o, c) in enumerate(seen):
            if len(o) == len(t) and all(A.eq(a, b) for a, b in zip(o, t)):
                return c, False
        c = self.cfg.cells(len(seen), len(X))
        if c is None:
            return None, False
        seen.append((t, c))
        self.cfg.mem.setdefault("within", []).append((v, X[c] if c >= 0 else None, X[c + 1] if c + 1 < len(X) else None))
        return c, False


def hash_of(*what):
    return int.from_bytes(hashlib.sha256(repr(what).encode()).digest()[:4], "big")


WIDE = [(0.1, 10.0), (1e-14, 1e-12), (1e-7, 1e-5), (1e5, 1e7), (1e12, 1e14)]


class GridCase(Case):
    """A case with grids in known order.

    ranks maps (parameter, indices) to a number that gives its place in the order; cells(k, n) is the
    cell (-1 to n - 1) of the k-th interpolated position that the order does not place.
    """

    def __init__(self, *args, opaque=(), ranks=None, cells=None, truth=None, anyconst=False, records=None, methods=(), attrs=(), flat=(), **kw):
        super().__init__(*args, primitives=opaque, **kw)
        self.methods, self.attrs = set(methods), set(attrs)
        self.flat = set(flat)             # distances that are differences of distances from the observer
        self.cls = Gridded
        self.ranks, self.cells, self.anyconst = dict(ranks or {}), cells, anyconst
        self.mem = None
        self.mk = self.placed
        self.real = kw.get("real", True)
        self.script = ()                  # guesses for conditions that nothing decides
        self.records = dict(records or {})
        self.truth = truth or (lambda it, c: None)
        self.oracle = self.decide
        self.wide = set()                 # parameters that can have any magnitude

    def placed(self):
        """Algebra in which samples of grids are in order at generic points."""
        A = Alg(real=self.real, fill=True)
        A.phis = True
        top = max(self.ranks.values(), default=0) + 1

        def place(node, salt):
            m, idx = (node.args[0], node.data) if node.op == "el" else (node, ())
            if m.op != "param":
                return None
            family, name = m.data
            if family == "draw":
                return 0.02, 0.98
            r = self.ranks.get((name, *idx))
            if r is not None:
                return 0.15 + 0.7 * r / top, 0.15 + 0.7 * (r + 0.6) / top
            if name in self.wide and salt >= 12:
                return WIDE[salt % len(WIDE)]
            if 1000 <= salt < 2000:
                return WIDE[(salt + hash_of(name, idx, salt)) % len(WIDE)] if salt % 2 else WIDE[salt // 2 % len(WIDE)]
            return (0.15, 0.85) if salt < 12 or salt >= 2000 else (0.01, 0.1) if salt % 3 else (1.5, 9.0) if salt % 2 else (0.1, 2.5)
        A.place = place
        return A

    def ok(self, name, node):
        if name == "leaf":
            m = node.args[0] if node is not None and node.op == "el" else node
            return super().ok(name, node) or m is not None and m.op == "attr" and m.args[0].op == "param" and m.data in self.attrs
        f = name.split(":")[0]
        base = f.rpartition(".")[2]
        return super().ok(name, node) and (f in self.elementwise or base in FUNCTIONS or f.startswith(("method.", "draw.", "cmp")))

    def decide(self, it, c, options=2):
        if options != 2:
            return None
        t = self.truth(it, c)
        if t is None:
            t = self.script[it.guesses] if it.guesses < len(self.script) else False
            it.guesses += 1
        return t

    def arr(self, name, shape=()):
        n = self.g.mk("param", (), ("arg", name))
        n.meta = {"ann": None, "notnull": True, "default": None, "name": name, "shape": shape}
        return n

    def grid(self, name, places, rows=None):
        """A grid whose samples lie at these places in the common order."""
        places = list(places)
        for k, r in enumerate(places):
            self.ranks[(name, k)] = r
        return self.arr(name, (len(places),))

    def configure(self, cfg):
        super().configure(cfg)
        cfg.methods, cfg.attrs, cfg.flat = self.methods, self.attrs, self.flat
        cfg.records, cfg.log = self.records, []
        self.log = cfg.log
        cfg.mem = self.mem if self.mem is not None else {}
        cfg.ranks, cfg.cells, cfg.anyconst, cfg.mkalg = self.ranks, self.cells, self.anyconst, self.mk


class Generic(PosAlg):
    """Values at a point where no two different expressions happen to be equal."""

    def holds(self, c):
        h = super().holds(c)
        if h is None and c.op == "cmp" and c.data in ("==", "!=") and len(c.args) == 2 and self.differ(self.of(c.args[0]), self.of(c.args[1])):
            return c.data == "!="
        return h


def generic(w):
    return lambda: Generic(fill=True, real=True)


class Signed(Alg):
    """Values of any sign."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.phis = True
        self.ranges = lambda name, args, node: (-0.85, 0.85)


def signed(w):
    return lambda: Signed(fill=True, real=False)


class Draws:
    """Draws of random numbers as affine functions of standard ones, numbered in order per distribution."""

    NAMES = {"uniform": ("low", "high", "size"), "normal": ("loc", "scale", "size"), "standard_normal": ("size", "dtype"),
             "random": ("size", "dtype"), "poisson": ("lam", "size"), "multinomial": ("n", "pvals", "size")}
    DEFAULT = {"low": 0.0, "high": 1.0, "loc": 0.0, "scale": 1.0}

    def __init__(self, g, order=(), counts=None):
        self.g = g
        self.counts = counts              # outcome of Poisson draws of a shape
        self.count = {}
        self.order = dict(order)          # (family, number) -> number
        self.made = []

    def rules(self):
        return {k: (lambda it, a, kw, k=k: self.draw(it, k, a, kw)) for k in self.NAMES}

    def number(self, family, shape):
        k = self.count.get(family, 0)
        self.count[family] = k + 1
        k = self.order.get((family, k), k)
        name = f"{family}{k}{'x'.join(map(str, shape)) and ' of ' + 'x'.join(map(str, shape))}"
        n = self.g.mk("param", (), ("draw", name))
        n.meta = {"ann": None, "notnull": True, "default": None, "name": name, "shape": shape}
        self.made.append((family, k, shape))
        return n

    def regrouped(self, other):
        """The same or more random numbers, in draws of other shapes."""
        a, b = self.made, other.made
        if [(f, s) for f, _, s in a] == [(f, s) for f, _, s in b]:
            return False
        size = {f: [sum(math.prod(s) for h, _, s in x if h == f) for x in (a, b)] for f in {f for f, _, _ in a + b}}
        return all(u >= v for u, v in size.values()) and sorted((f, s) for f, _, s in a) != sorted((f, s) for f, _, s in b)

    def draw(self, it, name, args, kw):
        b = {**dict(zip(self.NAMES[name], args)), **kw}
        size = b.get("size")
        pars = [b.get(k, self.g.const(self.DEFAULT[k]) if k in self.DEFAULT else None) for k in self.NAMES[name] if k not in ("size", "dtype")]
        if None in pars:
            return None
        if size is not None and not (size.op == "const" and size.data is None):
            shape = it.dims(size)
        else:
            shape = ()
            for p in pars if name != "multinomial" else [pars[0]]:
                s = it.shape(p)
                if s is None:
                    return None
                shape = _broadcast(shape, s)
                if shape is None:
                    return None
        if shape is None or not all(isinstance(d, int) for d in shape):
            return None
        if name in ("uniform", "random"):
            u = self.number("uniform", shape)
            if name == "random":
                return u
            return it.binop("+", pars[0], it.binop("*", it.binop("-", pars[1], pars[0]), u))
        if name == "standard_normal":
            return self.number("normal", shape)
        if name == "normal":
            return it.binop("+", pars[0], it.binop("*", pars[1], self.number("normal", shape)))
        if name == "poisson":
            it.cfg.log.append(("poisson", {"lam": pars[0]}))
            if self.counts is not None:
                return self.counts(it, shape)
            return self.g.mk("call", (pars[0], self.number("poisson", shape)), ("draw.poisson", ("lam", "n")))
        if name == "multinomial":
            s = it.shape(pars[1])
            it.cfg.log.append(("multinomial", {"n": pars[0], "pvals": pars[1]}))
            return None if s is None or shape not in ((), s[:-1]) else self.number("multinomial", s)
        return None


def _broadcast(a, b):
    n = max(len(a), len(b))
    out = []
    for x, y in zip((1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)):
        if x != y and 1 not in (x, y):
            return None
        out.append(y if x == 1 else x)
    return tuple(out)


EW = {"draw.poisson": {"lam", "n"}, "hp.ang2pix": {"theta", "phi"}}


def evaluate(c, module, prog, bind, g, mem, **kw):
    """Evaluation along a path that does not end in an error, if there is one."""
    script = ()
    for _ in range(16):
        z = evaluate1(c, module, prog, bind, g, mem, script, **kw)
        if not z.fails or z.it.guesses == 0:
            return z
        script = (list(script) + [False] * z.it.guesses)[:z.it.guesses]
        while script and script[-1]:
            script.pop()
        if not script:
            return z
        script[-1] = True
    z.unsure = True
    return z


def evaluate1(c, module, prog, bind, g, mem, script=(), order=(), counts=None, **kw):
    z = GridCase(c, module, prog, graph=g, elementwise=EW, **kw)
    d = Draws(g, order, counts)
    z.draws = d.rules()
    z.mem = mem
    z.script = script
    z.unsure = False
    b = bind(z)
    for k, n in z.b.items():
        if k not in b and n.op == "param":
            m = g.mk("param", (), ("arg", k))
            m.meta = m.meta or dict(n.meta or {})
            b[k] = m
    z.run(**{k: v for k, v in b.items() if k in z.b})
    z.drawn = d
    return z


def sequence(z, n):
    """Items of a tuple or list, or None."""
    it = z.it
    if n.op == "ref":
        xs = None if it.is_dict(n) else it.concrete_items(it.iter_value(n))
        return None if xs is None else [it.freeze(x) for x in xs]
    if n.op in ("tuple", "list") and not any(a.op == "star" for a in n.args):
        return list(n.args)
    return None


def difference(z, w, A):
    """None if the result of z has the elements of w; else (definite, text)."""
    if z.fails:
        return not z.unsure, z.fails
    if z.lost or w.lost:
        return False, z.why() if z.lost else "reference: " + w.why()
    z.A = w.A = A
    unknown = []

    def walk(x, idx, y, label):
        """x[idx] against y."""
        ys = sequence(w, y)
        xs = sequence(z, x) if not idx else None
        name = label or "result"
        if ys is not None and xs is not None:
            if len(xs) != len(ys):
                return True, f"{name} has {len(xs)} items instead of {len(ys)}"
            pairs = [(a, (), b) for a, b in zip(xs, ys)]
        else:
            s = z.it.shape(x)
            if s is None or not all(isinstance(d, int) for d in s):
                if ys is None and w.it.shape(y) in (None, ()) and not idx:
                    return leaf(x, y, name)
                return False, f"{name}: {z.show(x) if xs is None else x}"
            s = s[len(idx):]
            if ys is not None:
                if not s or s[0] != len(ys):
                    return True, f"{name} has shape {s} instead of {len(ys)} items"
                pairs = [(x, (*idx, k), b) for k, b in enumerate(ys)]
            else:
                t = w.it.shape(y)
                if t is None and not s:
                    t = ()
                if t is None or not all(isinstance(d, int) for d in t):
                    return False, f"{name}: shape {s} against {w.show(y)}"
                if s != t:
                    return True, f"{name} has shape {s} instead of {t}"
                for ix in itertools.product(*[range(d) for d in t]):
                    r = leaf(z.el(x, *idx, *ix), w.el(y, *ix) if t else w.el(y), name + (f"[{','.join(map(str, (*idx, *ix)))}]" if t or idx else ""))
                    if r is not None and r[0]:
                        return r
                    if r is not None:
                        unknown.append(r)
                return None
        for k, (a, i, b) in enumerate(pairs):
            r = walk(a, i, b, label if i else f"{label}.{k}" if label else str(k))
            if r is not None and r[0]:
                return r
            if r is not None:
                unknown.append(r)
        return None

    def leaf(u, v, name):
        r = z.same(u, v)
        return None if r is True else (r is False, f"{name} is {z.show(u)} instead of {z.show(v)}"[:600])
    r = walk(z.result, (), w.result, "")
    if r is not None:
        return r
    zl, wl = {}, {}
    for log, d in ((z.log, zl), (w.log, wl)):
        for f, kw in log:
            d.setdefault(f, []).append(kw)
    for f, calls in wl.items():
        if len(zl.get(f, ())) != len(calls):
            # another number of calls may come to the same
            unknown.append((not zl.get(f) and f in ("poisson", "multinomial"), f"{f} is called {len(zl.get(f, ()))} times instead of {len(calls)}"))
            continue
        for a, b in zip(zl[f], calls):
            for k, y in b.items():
                x = a.get(k)
                if y is None:
                    continue
                r = walk(x, (), y, f"{k} of {f}") if x is not None else (False, f"{f} without {k}")
                if r is not None and r[0]:
                    return r
                if r is not None:
                    unknown.append(r)
    return unknown[0] if unknown else None


def orders_of(drawn, other, limit=64):
    """Ways to number the draws so that draws of each kind have the numbers they have in the other program."""
    groups = {}
    for d, side in ((drawn, 0), (other, 1)):
        for f, k, s in d.made:
            groups.setdefault((f, s), ([], []))[side].append(k)
    if any(len(a) != len(b) for a, b in groups.values()) or math.prod(math.factorial(len(a)) for a, _ in groups.values()) > limit:
        return []
    out = []
    for ps in itertools.product(*[itertools.permutations(sorted(b)) for _, b in groups.values()]):
        o = tuple(((f, k), v) for ((f, _), (a, _)), p in zip(groups.items(), ps) for k, v in zip(sorted(a), p))
        if any(k != v for (_, k), v in o):
            out.append(o)
    return out


def agree(c, rule, name, module, prog, ref, bind, loc=None, cells=(None,), mk=None, perms=True, orders=None, prims=None, **kw):
    """Obligations that a program gives what the reference gives, for every choice of cells."""
    for cell in cells:
        cc = None if cell is None else (cell if callable(cell) else (lambda k, n, v=cell: v if v < n else None))
        g, mem = Graph(), {}
        opts = dict(cells=cc, **kw)
        if prims is not None:
            opts["prims"] = prims
        w = evaluate(c, module, ref, bind, g, mem, **opts)
        if mk:
            w.mk = mk(w)
        A = w.mk()
        A.bounds = mem.setdefault("within", [])
        todo = [()]
        best = None
        first = True
        while todo:
            o = todo.pop(0)
            z = evaluate(c, module, prog, bind, g, mem, order=o, **opts)
            A.subst.update(z.A.subst)
            r = difference(z, w, A)
            if r is not None and r[0] and z.drawn.regrouped(w.drawn):
                r = False, f"other draws than the reference: {r[1]}"
            best = r if first or r is None or not r[0] else best
            if best is None or not best[0]:
                break
            if first and perms:
                first = False
                todo += orders_of(z.drawn, w.drawn)
        nm = name + ("" if cell is None else f", cell {cell}" if not callable(cell) else f", {cell.__name__}")
        if best is None:
            c.ok(rule, nm, "same elements as the reference", loc)
        elif best[0]:
            c.bad(rule, nm, best[1], loc)
        else:
            c.unk(rule, nm, best[1], loc)
