"""Exact algebra on value nodes: rational functions over interned atoms.

Two values with equal normal forms are equal for every input.  Two values whose
normal forms differ and are built from the same independent atoms are different
functions.  Everything that is not understood becomes an atom of its own.
"""

from __future__ import annotations

import math
from fractions import Fraction
from itertools import product as _product

NS = {"xp", "np", "math", "jnp", "cmath", "uxpx", "numpy"}
IDENT = {"asarray", "array", "broadcast_to", "astype", "float64", "ascontiguousarray", "asanyarray", "copy"}


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if v != v or v in (float("inf"), float("-inf")):
        return None
    f = Fraction(v).limit_denominator(64)
    if float(f) == v:   # 1/3 and other quotients of small numbers computed by constant propagation
        return f
    return Fraction(repr(v)) if "e" not in repr(v) else Fraction(v).limit_denominator(10**30) if abs(v) < 1e-20 else Fraction(repr(v))


class TooBig(Exception):
    pass


class Exhausted(Exception):
    """The work allowed for a decision is used up."""


LIMIT = 4000


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > LIMIT:
            raise TooBig
        d = {}
        for m, c in self.t.items():
            for n, e in o.t.items():
                k = mono_mul(m, n)
                v = d.get(k, 0) + c * e
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return Poly(d)

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def lead(self):
        """Leading monomial in a graded lexicographic order."""
        return max(self.t, key=lambda m: (sum(e for _, e in m), [(-a, e) for a, e in m]))

    def degree(self, a):
        return max((dict(m).get(a, 0) for m in self.t), default=0)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.t.items()})

    def divides(self, o):
        """Exact quotient o / self or None (multivariate division, graded lex order)."""
        if self.zero():
            return None
        lm = self.lead()
        lc = self.t[lm]
        ld = dict(lm)
        rem = o
        q = Poly()
        n = 0
        while not rem.zero():
            n += 1
            if n > 500:
                return None
            rm = rem.lead()
            rd = dict(rm)
            if any(rd.get(a, 0) < e for a, e in ld.items()):
                return None
            for a, e in ld.items():
                rd[a] -= e
            m = tuple(sorted((a, e) for a, e in rd.items() if e))
            t = Poly({m: rem.t[rm] / lc})
            q = q + t
            rem = rem - t * self
        return q


def mono_gcd(p):
    it = iter(p.t)
    try:
        g = dict(next(it))
    except StopIteration:
        return {}
    for m in it:
        d = dict(m)
        g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        if not g:
            break
    return g


def mono_div(p, g):
    out = {}
    for m, c in p.t.items():
        d = dict(m)
        for a, e in g.items():
            d[a] -= e
        out[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    return Poly(out)


class RF:
    """num/den"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else Poly.const(1)

    def zero(self):
        return self.n.zero()

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def cval(self):
        return self.n.cval() / self.d.cval()

    def atoms(self):
        return self.n.atoms() | self.d.atoms()


class Inexact(Exception):
    """The value is not a rational number that is computed exactly."""


class Q:
    """A complex number with rational parts."""

    __slots__ = ("re", "im")

    def __init__(self, re, im=Fraction(0)):
        self.re, self.im = re, im

    def __add__(self, o):
        return Q(self.re + o.re, self.im + o.im) if isinstance(o, Q) else Q(self.re + o, self.im)

    def __sub__(self, o):
        return Q(self.re - o.re, self.im - o.im) if isinstance(o, Q) else Q(self.re - o, self.im)

    def __mul__(self, o):
        return Q(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re) if isinstance(o, Q) else Q(self.re * o, self.im * o)

    def __rsub__(self, o):
        return Q(o - self.re, -self.im)

    def __rtruediv__(self, o):
        return Q(o) / self

    __radd__, __rmul__ = __add__, __mul__

    def __truediv__(self, o):
        if not isinstance(o, Q):
            return Q(self.re / o, self.im / o)
        d = o.re * o.re + o.im * o.im
        return self * Q(o.re / d, -o.im / d)

    def __pow__(self, k):
        r = Q(Fraction(1))
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else Q(Fraction(1)) / r

    def __abs__(self):
        return max(abs(self.re), abs(self.im))


EXACT = {
    "abs": abs, "abs:x": abs, "abs:0": abs, "max": max, "min": min, "max:": max, "not": lambda a: not a, "and": lambda *a: all(a), "or": lambda *a: any(a),
    "cmp<": lambda a, b: a < b, "cmp<=": lambda a, b: a <= b, "cmp==": lambda a, b: a == b, "cmp!=": lambda a, b: a != b,
}
NUMERIC = {  # values of functions of real numbers that have no algebra of their own
    "bin%": (2, lambda a, b: a % b), "remainder": (2, lambda a, b: a % b), "//": (2, lambda a, b: a // b), "floor_divide": (2, lambda a, b: a // b),
    "floor": (1, math.floor), "ceil": (1, math.ceil), "trunc": (1, math.trunc), "round": (1, round), "fmod": (2, math.fmod),
    "sign": (1, lambda a: (a > 0) - (a < 0)), "erf": (1, math.erf), "cosh": (1, math.cosh), "acosh": (1, math.acosh),
    "log2": (1, math.log2), "log10": (1, math.log10), "exp2": (1, lambda a: 2.0 ** a), "copysign": (2, math.copysign),
}


class Alg:
    """Normal forms for nodes of one graph."""

    def __init__(self, identity_index=True, assume=None, subst=None, extra_ident=(), fill=False, elementwise=(), real=False,
                 decide=None):
        self.atoms_ = []          # index -> (fn, args tuple of RF | node key)
        self.bykey = {}           # ('leaf', key) -> index
        self.byfn = {}            # fn -> list of indices
        self.cache = {}
        self.assume = dict(assume or {})   # condition node id -> bool
        self.conds = {}           # condition nodes met without an assumption
        self.subst = dict(subst or {})     # node id -> RF
        self.identity_index = identity_index
        self.ident = IDENT | set(extra_ident)
        self.I = self.leaf("I")
        self.PI = self.leaf("pi")
        self.opaque_calls = set()
        self.real = real                   # atoms stand for real numbers
        self.decide = decide               # condition node -> True, False or None
        self.values = {}
        self.merge_sqrt = False
        self.numroots = 0           # square roots of numbers
        self.work = 0
        self.budget = None                 # largest total size of the expressions that are reduced
        self.positive_roots = False
        self.bounds = []                   # (value, lower and upper bound) that hold at every point
        self.place = None                  # range of a leaf at generic points
        self.phis = False                  # choices between values are understood
        self.generic = ("param", "const")  # leaves that have generic values in conditions
        self.ranges = None                 # generic values of atoms are drawn from here
        self.fill = fill                   # constant arrays stand for their value
        self.elementwise = set(elementwise)  # methods that map over a list argument

    # ------------------------------------------------------------ atoms
    def leaf(self, key, node=None):
        i = self.bykey.get(key)
        if i is None:
            i = len(self.atoms_)
            self.atoms_.append(("leaf", key, node))
            self.bykey[key] = i
        return i

    def fn(self, name, args):
        for i in self.byfn.get(name, ()):
            if len(self.atoms_[i][1]) == len(args) and all(self.eq(x, y) for x, y in zip(self.atoms_[i][1], args)):
                return i
        i = len(self.atoms_)
        self.atoms_.append((name, tuple(args), None))
        self.byfn.setdefault(name, []).append(i)
        return i

    def A(self, i):
        return RF(Poly.atom(i))

    def C(self, c):
        return RF(Poly.const(c))

    def describe(self, i, depth=3):
        k = self.atoms_[i]
        if k[0] == "leaf":
            from .ir import show
            return show(k[2], 3) if k[2] is not None else str(k[1])
        if depth <= 0:
            return k[0] + "(..)"
        return k[0] + "(" + ", ".join(self.show(a, depth - 1) for a in k[1]) + ")"

    def show(self, r, depth=3):
        def sp(p):
            if p.zero():
                return "0"
            out = []
            for m, c in sorted(p.t.items(), key=str)[:12]:
                s = "*".join(self.describe(a, depth) + (f"^{e}" if e != 1 else "") for a, e in m)
                out.append(f"{c}*{s}" if s and c != 1 else s or str(c))
            return " + ".join(out) + (" + ..." if len(p.t) > 12 else "")
        if r.d == Poly.const(1):
            return sp(r.n)
        return f"({sp(r.n)})/({sp(r.d)})"

    # ------------------------------------------------------- arithmetic
    def norm(self, r):
        """Reduce powers of special atoms and cancel common factors."""
        self.work += len(r.n.t) + len(r.d.t)
        if self.budget and self.work > self.budget:
            raise Exhausted
        n, d = self.red(r.n), self.red(r.d)
        if n.d.is_const() and d.d.is_const():
            num, den = n.n.scale(1 / n.d.cval()), d.n.scale(1 / d.d.cval())
        else:
            num, den = n.n * d.d, n.d * d.n
            a, b = self.red(num), self.red(den)
            num, den = a.n * b.d, a.d * b.n
        if den.zero():
            return RF(num, den)
        if num.zero():
            return RF(Poly())
        g = mono_gcd(num)
        h = mono_gcd(den)
        c = {a: min(e, h[a]) for a, e in g.items() if a in h}
        if c:
            num, den = mono_div(num, c), mono_div(den, c)
        if not den.is_const():
            q = den.divides(num)
            if q is not None:
                num, den = q, Poly.const(1)
            else:
                q = num.divides(den)
                if q is not None:
                    num, den = Poly.const(1), q
        lc = den.t[den.lead()]
        if lc != 1:
            num, den = num.scale(1 / lc), den.scale(1 / lc)
        return RF(num, den)

    def red(self, p):
        """Replace I^2 by -1, sqrt(u)^2 by u, cos^2 by 1 - sin^2."""
        if self.merge_sqrt or self.numroots > 1:
            p = self.merge(p)
            if isinstance(p, RF):
                r = self.red(p.n)
                return RF(r.n, r.d * p.d)
        for _ in range(40):
            hit = None
            for m in p.t:
                for a, e in m:
                    if e >= 2 and (a == self.I or self.atoms_[a][0] in ("sqrt", "cos")):
                        hit = (a, e)
                        break
                if hit:
                    break
            if hit is None:
                return RF(p)
            a, _ = hit
            base = (self.C(-1) if a == self.I else self.atoms_[a][1][0] if self.atoms_[a][0] == "sqrt"
                    else self.sub(self.C(1), self.mul_raw(self.A(s := self.fn("sin", self.atoms_[a][1])), self.A(s))))
            hi, lo = {}, {}
            for m, c in p.t.items():
                e = dict(m).get(a, 0)
                if e >= 2:
                    d = dict(m)
                    d[a] = e - 2
                    hi[tuple(sorted((x, y) for x, y in d.items() if y))] = c
                else:
                    lo[m] = c
            num = Poly(hi) * base.n + Poly(lo) * base.d
            if not base.d.is_const():
                r = self.red(num)
                return RF(r.n, r.d * base.d)
            p = num.scale(1 / base.d.cval())
        return RF(p)

    def merge(self, p):
        """sqrt(u)*sqrt(v) = sqrt(u*v) for factors that are not negative."""
        def root(a):
            return self.atoms_[a][0] == "sqrt" and (self.merge_sqrt or self.atoms_[a][1][0].is_const())
        if not any(sum(root(a) for a, e in m if e == 1) > 1 for m in p.t):
            return p
        out = RF(Poly())
        for m, c in p.t.items():
            roots = [a for a, e in m if e == 1 and root(a)]
            if len(roots) < 2:
                t = RF(Poly({m: c}))
            else:
                u = self.C(1)
                for a in roots:
                    u = self.mul(u, self.atoms_[a][1][0])
                rest = Poly({tuple((a, e) for a, e in m if a not in roots): c})
                r = self.sqrt(u)
                t = RF(rest * r.n, r.d)
            out = RF(out.n * t.d + t.n * out.d, out.d * t.d)
        return out if not out.d.is_const() else RF(out.n, out.d)

    def mul_raw(self, a, b):
        return RF(a.n * b.n, a.d * b.d)

    def add(self, a, b):
        if a.d == b.d:
            return self.norm(RF(a.n + b.n, a.d))
        q = a.d.divides(b.d)
        if q is not None:
            return self.norm(RF(a.n * q + b.n, b.d))
        q = b.d.divides(a.d)
        if q is not None:
            return self.norm(RF(a.n + b.n * q, a.d))
        return self.norm(RF(a.n * b.d + b.n * a.d, a.d * b.d))

    def negate(self, a):
        return RF(-a.n, a.d)

    def sub(self, a, b):
        return self.add(a, self.negate(b))

    def mul(self, a, b):
        return self.norm(RF(a.n * b.n, a.d * b.d))

    def div(self, a, b):
        return self.norm(RF(a.n * b.d, a.d * b.n))

    def powi(self, a, k):
        if k < 0:
            return self.div(self.C(1), self.powi(a, -k))
        r = self.C(1)
        for _ in range(k):
            r = self.mul(r, a)
        return r

    def eq(self, a, b):
        if a.d.zero() is not b.d.zero():
            return False   # a division by zero
        if a.d == b.d:
            if a.n == b.n:
                return True
        if not a.atoms() == b.atoms() and not (self.special(a) or self.special(b)):
            pass
        try:
            return self.sub(a, b).zero()
        except TooBig:
            return False

    def special(self, a):
        return any(self.atoms_[i][0] in ("sqrt", "cos", "sin") for i in a.atoms())

    # --------------------------------------------------------- functions
    def sqrt(self, r):
        r = self.norm(r)
        if r.zero():
            return r
        # pull out square monomials and constants of a single-term polynomial (positive quantities assumed)
        def split(p):
            g = mono_gcd(p)
            out = {a: e // 2 for a, e in g.items() if e >= 2}
            p2 = mono_div(p, {a: 2 * e for a, e in out.items()})
            c = p2.t[p2.lead()]
            return out, p2, c
        if r.is_const():
            c = r.cval()
            if c > 0:
                import math
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return self.C(Fraction(a, b))
                m, k = c.numerator * c.denominator, 1
                if m < 10**8:
                    for p in range(2, 1000):
                        while m % (p * p) == 0:
                            m //= p * p
                            k *= p
                    f = Fraction(k, c.denominator)
                    n = len(self.atoms_)
                    k = self.fn("sqrt", (self.C(m),))
                    self.numroots += len(self.atoms_) > n
                    return RF(Poly({((k, 1),): f}))
        sq = self.perfect_square(r.n), self.perfect_square(r.d)
        if sq[0] is not None and sq[1] is not None:
            self.positive_roots = True    # roots of squares are taken to be positive
            return self.norm(RF(sq[0], sq[1]))
        f, r = self.primitive(r)
        return f if r is None else self.mul(f, self.A(self.fn("sqrt", (r,))))

    def primitive(self, r):
        """(f, u) with sqrt(r) = f sqrt(u), u without square factors of known sign."""
        def content(p):
            n, d = 0, 1
            for c in p.t.values():
                n, d = math.gcd(n, c.numerator), d * c.denominator // math.gcd(d, c.denominator)
            return Fraction(n, d)
        f = Fraction(1)
        k = content(r.n) / content(r.d)
        m, q = k.numerator * k.denominator, 1
        for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 180):
            while m % (p * p) == 0:
                m //= p * p
                q *= p
        s = math.isqrt(m)
        if s * s == m:
            q, m = q * s, 1
        f = Fraction(q, k.denominator)
        out = self.C(f)
        n, d = r.n, r.d
        for top in (True, False):
            p = n if top else d
            g = {a: e - e % 2 for a, e in mono_gcd(p).items() if e > 1 and self.atoms_[a][0] in ("sqrt", "exp")}
            if g:
                p = mono_div(p, g)
                h = RF(Poly({tuple(sorted((a, e // 2) for a, e in g.items())): Fraction(1)}))
                out = self.mul(out, h) if top else self.div(out, h)
                n, d = (p, d) if top else (n, p)
        if f != 1 or n is not r.n or d is not r.d:
            r = self.norm(RF(n.scale(1 / (f * f)), d))
        if r.is_const() and r.cval() == 1:
            return out, None
        return out, r

    def perfect_square(self, p):
        """Polynomial q with q*q == p and a positive leading coefficient, or None."""
        import math
        if p.zero():
            return p
        lm = p.lead()
        c = p.t[lm]
        if c <= 0 or any(e % 2 for _, e in lm):
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        q = Poly({tuple((x, e // 2) for x, e in lm): Fraction(a, b)})
        lq = q.lead()
        for _ in range(60):
            rem = p - q * q
            if rem.zero():
                return q
            rm = rem.lead()
            d = dict(rm)
            for x, e in lq:
                d[x] = d.get(x, 0) - e
                if d[x] < 0:
                    return None
            m = tuple(sorted((x, e) for x, e in d.items() if e))
            if m in q.t:
                return None
            q = q + Poly({m: rem.t[rm] / (2 * q.t[lq])})
        return None

    def exp(self, r):
        r = self.norm(r)
        if r.zero():
            return self.C(1)
        # exp(i angle)
        z = self.div(r, self.A(self.I))
        yx = self.single(z, "atan2") if self.I not in z.atoms() else None
        if yx is not None:
            h = self.sqrt(self.add(self.mul(yx[0], yx[0]), self.mul(yx[1], yx[1])))
            return self.div(self.add(yx[1], self.mul(self.A(self.I), yx[0])), h)
        # log(u) as a whole
        if len(r.n.t) == 1 and r.d.is_const():
            (m, c), = r.n.t.items()
            c = c / r.d.cval()
            if len(m) == 1 and m[0][1] == 1 and self.atoms_[m[0][0]][0] == "log" and c.denominator == 1 and abs(c) < 8:
                return self.powi(self.atoms_[m[0][0]][1][0], int(c))
        # normalise sign and integer content
        lead = r.n.t[r.n.lead()]
        k = 1
        import math
        coeffs = [c / (r.d.cval() if r.d.is_const() else 1) for c in r.n.t.values()]
        den = 1
        for c in coeffs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in coeffs:
            g = math.gcd(g, int(c * den))
        cont = Fraction(g, den)
        sign = 1 if lead > 0 else -1
        if cont.denominator == 1 and 1 <= cont <= 8:
            k = int(cont) * sign
        else:
            k = sign
        base = self.norm(RF(r.n.scale(Fraction(1, k)), r.d))
        return self.powi(self.A(self.fn("exp", (base,))), k)

    def log(self, r):
        r = self.norm(r)
        if r.is_const() and r.cval() == 1:
            return self.C(0)
        # log of a single power of one exponential
        if len(r.n.t) == 1 and len(r.d.t) == 1:
            (mn, cn), = r.n.t.items()
            (md, cd), = r.d.t.items()
            if cn == cd and all(self.atoms_[a][0] == "exp" for a, _ in mn + md):
                out = self.C(0)
                for a, e in mn:
                    out = self.add(out, self.mul(self.C(e), self.atoms_[a][1][0]))
                for a, e in md:
                    out = self.sub(out, self.mul(self.C(e), self.atoms_[a][1][0]))
                return out
        return self.A(self.fn("log", (r,)))

    def conj(self, r):
        def flip(p):
            return Poly({m: (c if dict(m).get(self.I, 0) % 2 == 0 else -c) for m, c in p.t.items()})
        turned = {}
        for a in r.atoms():
            if self.I in self.deep(a):
                name, args, _ = self.atoms_[a]
                if name != "exp":
                    raise TooBig
                turned[a] = self.exp(self.conj(args[0]))
        return self.replaced(self.norm(RF(flip(r.n), flip(r.d))) if not turned else RF(flip(r.n), flip(r.d)), turned)

    def replaced(self, r, by):
        """The normal form with other normal forms in place of some of its atoms."""
        def turn(p):
            out = self.C(0)
            for m, c in p.t.items():
                x = RF(Poly({tuple((a, e) for a, e in m if a not in by): c}))
                for a, e in m:
                    if a in by:
                        x = self.mul(x, self.powi(by[a], e))
                out = self.add(out, x)
            return out
        return self.div(turn(r.n), turn(r.d)) if by else r

    def deep(self, a, seen=None):
        """Atoms inside the arguments of an atom."""
        seen = set() if seen is None else seen
        name, args, _ = self.atoms_[a]
        if name != "leaf":
            for r in args:
                if isinstance(r, RF):
                    for b in r.atoms():
                        if b not in seen:
                            seen.add(b)
                            self.deep(b, seen)
        return seen

    def atan2(self, y, x):
        """Angle of (x, y); a common factor is taken to be positive."""
        y, x = self.norm(y), self.norm(x)
        try:
            q = self.add(self.mul(y, y), self.mul(x, x))
            h = self.sqrt(q)
            if not h.is_const() or not h.zero():
                s, c = self.div(y, h), self.div(x, h)
                # (sin u, cos u) of an angle that already has a name
                for name in ("sin", "cos"):
                    src = s if name == "sin" else c
                    if src.d.is_const() and len(src.n.t) == 1:
                        (m, k), = src.n.t.items()
                        if len(m) == 1 and m[0][1] == 1 and self.atoms_[m[0][0]][0] == name:
                            u = self.atoms_[m[0][0]][1][0]
                            for v in (u, self.negate(u)):
                                if self.eq(self.odd("sin", v), s) and self.eq(self.odd("cos", v, even=True), c):
                                    return v
                y, x = s, c
        except TooBig:
            pass
        if self.one_term(x, "sqrt") and self.eq(self.add(self.mul(y, y), self.mul(x, x)), self.C(1)):
            return self.odd("asin", y)
        return self.A(self.fn("atan2", (y, x)))

    def one_term(self, r, name):
        if not r.d.is_const() or len(r.n.t) != 1:
            return False
        (m, k), = r.n.t.items()
        return k > 0 and len(m) == 1 and m[0][1] == 1 and self.atoms_[m[0][0]][0] == name

    def single(self, r, name):
        """The argument tuple if r is exactly one atom of this function."""
        if r.d.is_const() and r.d.cval() == 1 and len(r.n.t) == 1:
            (m, k), = r.n.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms_[m[0][0]][0] == name:
                return self.atoms_[m[0][0]][1]
        return None

    # ------------------------------------------------------ derivatives
    def diff(self, r, a):
        """Derivative with respect to atom a, or None where a function's derivative is not known."""
        n, d = self.dpoly(r.n, a), self.dpoly(r.d, a)
        if n is None or d is None:
            return None
        rn, rd = RF(r.n), RF(r.d)
        return self.div(self.sub(self.mul(n, rd), self.mul(rn, d)), self.mul(rd, rd))

    def dpoly(self, p, a):
        out = self.C(0)
        for m, c in p.t.items():
            for k, (b, e) in enumerate(m):
                db = self.datom(b, a)
                if db is None:
                    return None
                if db.zero():
                    continue
                rest = tuple(x for j, x in enumerate(m) if j != k)
                if e > 1:
                    rest = mono_mul(rest, ((b, e - 1),))
                out = self.add(out, self.mul(RF(Poly({rest: c * e})), db))
        return out

    def datom(self, b, a):
        if a == b:
            return self.C(1)
        if a not in self.deep(b):
            return self.C(0)
        name, args, _ = self.atoms_[b]
        if len(args) != 1:
            return None
        u = args[0]
        du = self.diff(u, a)
        if du is None:
            return None
        f = self.A(b)
        one = self.C(1)
        if name == "exp":
            v = f
        elif name == "log":
            v = self.div(one, u)
        elif name == "sqrt":
            v = self.div(one, self.mul(self.C(2), f))
        elif name == "sin":
            v = self.odd("cos", u, even=True)
        elif name == "cos":
            v = self.negate(self.odd("sin", u))
        elif name in ("asin", "asinh", "atan", "atanh"):
            w = self.mul(u, u)
            q = {"asin": self.sub(one, w), "asinh": self.add(one, w), "atan": self.add(one, w), "atanh": self.sub(one, w)}[name]
            v = self.div(one, self.sqrt(q) if name in ("asin", "asinh") else q)
        else:
            return None
        return self.mul(v, du)

    # ------------------------------------------------- identity testing
    def value(self, r, salt=0):
        """Value of a normal form when leaves get fixed generic values (identity testing)."""
        n = self.pval(r.n, salt)
        d = self.pval(r.d, salt)
        return n / d

    def pval(self, p, salt):
        return sum((complex(float(c)) * self.mval(m, salt) for m, c in p.t.items()), 0j)

    def mval(self, m, salt):
        v = 1 + 0j
        for a, e in m:
            v *= self.aval(a, salt) ** e
        return v

    def aval(self, a, salt):
        import cmath
        import hashlib
        import math
        k = (a, salt)
        if k in self.values:
            return self.values[k]
        self.values[k] = complex(0.5)
        name, args, node = self.atoms_[a]

        def gen(text):
            h = hashlib.sha256(f"{salt}|{text}".encode()).digest()
            place = self.place(node, salt) if self.place is not None and node is not None else None
            lo, hi = place or (self.ranges(name, args, node) if self.ranges is not None else (0.15, 0.85))
            if place is None and salt >= 12 and self.ranges is None:
                lo, hi = ((0.001, 0.1), (1.1, 9.0), (10.0, 900.0), (0.15, 0.85))[int.from_bytes(h[8:9], "big") % 4]
            return complex(lo + (hi - lo) * int.from_bytes(h[:6], "big") / 2**48)
        if a == self.I:
            v = 1j
        elif a == self.PI:
            v = complex(math.pi)
        elif name == "leaf":
            t = node.data if node is not None and node.op in ("const", "ext") else node.data[1] if node is not None and node.op == "nsfn" else None
            t = str(t).rpartition(".")[2]
            v = complex(1e30 if t == "inf" else -1e30) if t in ("inf", "-inf") else gen(repr(args))
        else:
            xs = [self.value(r, salt) for r in args]
            try:
                if name == "sqrt":
                    v = cmath.sqrt(xs[0])
                elif name in ("exp", "log", "sin", "cos", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"):
                    v = getattr(cmath, name)(xs[0])
                elif name == "acos":
                    v = cmath.acos(xs[0])
                elif name == "atan2":
                    v = complex(math.atan2(xs[0].real, xs[1].real))
                elif name == "pow":
                    v = xs[0] ** xs[1]
                elif name == "phi:None":
                    v = xs[1] if xs[0] else xs[2]
                elif name in ("cmp<", "cmp<=", "cmp=="):
                    v = complex({"<": xs[0].real < xs[1].real, "<=": xs[0].real <= xs[1].real, "==": xs[0] == xs[1]}[name[3:]])
                elif name in ("not", "and", "or"):
                    v = complex(not xs[0] if name == "not" else all(xs) if name == "and" else any(xs))
                elif name in ("abs", "abs:x", "abs:0"):
                    v = complex(abs(xs[0]))
                elif name in ("max", "min"):
                    v = (max if name == "max" else min)(xs, key=lambda z: z.real)
                elif name.partition(":")[0] in NUMERIC and len(xs) == NUMERIC[name.partition(":")[0]][0]:
                    v = complex(NUMERIC[name.partition(":")[0]][1](*(z.real for z in xs)))
                else:
                    v = gen(name + "|" + ",".join(f"{z.real:.9e},{z.imag:.9e}".replace("-0.000000000e+00", "0.000000000e+00") for z in xs))
            except (ValueError, ZeroDivisionError, OverflowError):
                v = complex("nan")
        self.values[k] = v
        return v

    def truth(self, c, salt):
        """Truth of a condition node at a generic point, or None."""
        if c.op == "not":
            t = self.truth(c.args[0], salt)
            return None if t is None else not t
        if c.op in ("and", "or"):
            ts = [self.truth(a, salt) for a in c.args]
            if c.op == "and":
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        if c.op == "const":
            return bool(c.data)
        if c.op == "call" and c.data[0] in ("any", "all") and len(c.args) > 1:
            ts = [self.truth(a, salt) for a in c.args]
            stop = c.data[0] == "any"
            return stop if stop in ts else None if None in ts else not stop
        if c.op == "call" and c.data[0].rpartition(".")[2] in ("any", "all", "bool") and len(c.args) == 1:
            return self.truth(c.args[0], salt)   # one generic element
        if c.op == "cmp" and c.data in ("<", "<=", "==") and len(c.args) == 2:
            a, b = (self.of(x) for x in c.args)
            if not all(self.understood(x, lambda n, node: n != "leaf" and not n.startswith("phi") or
                                       (node is not None and node.op in self.generic)) for x in (a, b)):
                return None
            try:
                a, b = self.value(a, salt), self.value(b, salt)
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
            if a != a or b != b or abs(a.imag) > 1e-12 or abs(b.imag) > 1e-12:
                return None
            return {"<": a.real < b.real, "<=": a.real <= b.real, "==": a.real == b.real}[c.data]
        return None

    def differ(self, u, v, given=()):
        """True if the two normal forms take different values at a generic point where the conditions hold."""
        wanted = 200 if given else 60 if self.place is not None and (self.chooses(u) or self.chooses(v)) else 12
        for salt in range(20 * wanted if self.bounds else wanted):
            if any(self.truth(c, salt) is not t for c, t in given):
                continue
            try:
                if not self.inside(lambda r: self.value(r, salt).real):
                    continue
                a, b = self.value(u, salt), self.value(v, salt)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            wanted -= 1
            if a != a or b != b:
                continue
            if abs(a - b) > 1e-6 * max(abs(a), abs(b), 1e-9):
                return True
            if wanted <= 0:
                break
        if self.place is not None and not given and (self.chooses(u) or self.chooses(v)):
            for salt in range(1000, 1030):
                memo = {}
                try:
                    if not self.inside(lambda r: self.exact(r, salt, memo)):
                        continue
                    a, b = (self.exact(r, salt, memo) for r in (u, v))
                except (ZeroDivisionError, Inexact):
                    continue
                if abs(a - b) > max(abs(a), abs(b)) / 10**6:
                    return True
            return self.directed(u, v)
        return False

    def inside(self, value):
        """Whether a point is one where the known bounds hold."""
        for t in self.bounds:
            x, lo, hi = (None if n is None else self.of(n) for n in t)
            if lo is not None and not value(lo) < value(x) or hi is not None and not value(x) < value(hi):
                return False
        return True

    def directed(self, u, v):
        """Whether the values differ close to a point where a choice changes."""
        forms, seen = [], set()
        for r in (u, v):
            for a in r.atoms():
                for b in (a, *self.deep(a)):
                    if b in seen:
                        continue
                    seen.add(b)
                    name, args, _ = self.atoms_[b]
                    if name in ("cmp<", "cmp<=", "max", "min") and len(args) >= 2:
                        forms += [self.sub(args[0], x) for x in args[1:]]
                    elif name in ("abs", "abs:x", "abs:0"):
                        forms.append(args[0])
        for f, salt in _product(forms[:12], (2000, 2001)):
            leaves = [a for a in f.atoms() if self.atoms_[a][0] == "leaf" and a not in (self.I, self.PI)]
            for a in sorted(leaves)[:6]:
                try:
                    lo, hi = self.span(a)
                    x0, x1, x2 = (self.exact(f, salt, {a: Fraction(t)}) for t in (lo, (lo + hi) / 2, hi))
                except (ZeroDivisionError, Inexact):
                    continue
                if any(isinstance(x, Q) for x in (x0, x1, x2)) or x0 == x2:
                    continue
                root = lo - x0 * (hi - lo) / (x2 - x0)
                if not (lo <= root <= hi or self.free(a) and (root > 0 or not self.positive_roots)):
                    continue
                for d in (Fraction(1, 10**9), Fraction(1, 10**4), Fraction(1, 50)):
                    for x in (root * (1 + d), root * (1 - d)) if root else (d, -d):
                        if not (lo <= x <= hi or self.free(a)):
                            continue
                        memo = {a: x}
                        try:
                            if not self.inside(lambda r: self.exact(r, salt, memo)):
                                continue
                            p, q = (self.exact(r, salt, memo) for r in (u, v))
                        except (ZeroDivisionError, Inexact):
                            continue
                        if abs(p - q) > max(abs(p), abs(q)) / 10**6:
                            return True
        return False

    def span(self, a):
        n = self.atoms_[a][2]
        p = self.place(n, 2000) if n is not None else None
        return tuple(map(Fraction, p or (0.15, 0.85)))

    def free(self, a):
        """Whether a leaf can take any value."""
        n = self.atoms_[a][2]
        return n is not None and self.place(n, 1000) != self.place(n, 1002)

    def exact(self, r, salt, memo):
        """Rational value of a normal form at a point with leaves of very different magnitude; raises Inexact."""
        def poly(p):
            t = Fraction(0)
            for m, c in p.t.items():
                for a, e in m:
                    if e != int(e):
                        raise Inexact
                    c = c * atom(a) ** int(e)
                t += c
            return t

        def atom(a):
            if a in memo:
                return memo[a]
            name, args, node = self.atoms_[a]
            if a == self.I:
                v = Q(Fraction(0), Fraction(1))
            elif a == self.PI:
                v = Fraction(math.pi)
            elif name == "leaf":
                v = Fraction(self.aval(a, salt).real)
                if 1020 <= salt < 1030 and not self.positive_roots and hash((salt, a)) % 2 and self.free(a):
                    v = -v
                if abs(v) > 10**25:
                    raise Inexact
            elif name == "phi:None":
                t = value(args[0])
                if isinstance(t, Q):
                    raise Inexact
                v = value(args[1] if t else args[2])
            elif name in EXACT:
                xs = [value(x) for x in args]
                if any(isinstance(x, Q) for x in xs):
                    raise Inexact
                v = Fraction(EXACT[name](*xs))
            else:
                raise Inexact
            memo[a] = v
            return v

        def value(x):
            return poly(x.n) / poly(x.d)
        return value(r)

    def chooses(self, r):
        """Whether a normal form has choices between values."""
        return any(self.atoms_[b][0] in ("phi:None", "max", "min", "abs", "abs:x", "abs:0") for a in r.atoms() for b in (a, *self.deep(a)))

    def odd(self, name, r, even=False):
        r = self.norm(r)
        if name in ("sin", "cos"):
            yx = self.single(r, "atan2")
            if yx is not None:
                y, x = yx
                h = self.sqrt(self.add(self.mul(y, y), self.mul(x, x)))
                return self.div(y if name == "sin" else x, h)
            h = self.div(self.A(self.PI), self.C(2))
            y = self.single(self.sub(h, r), "asin")
            if y is not None:
                return y[0] if name == "cos" else self.sqrt(self.sub(self.C(1), self.mul(y[0], y[0])))
            y = self.single(r, "asin")
            if y is not None:
                return y[0] if name == "sin" else self.sqrt(self.sub(self.C(1), self.mul(y[0], y[0])))
        if r.zero():
            return self.C(1 if even else 0)
        if r.n.t[r.n.lead()] < 0:
            a = self.A(self.fn(name, (self.negate(r),)))
            return a if even else self.negate(a)
        return self.A(self.fn(name, (r,)))

    # ------------------------------------------------------------- nodes
    def of(self, n):
        r = self.subst.get(n.id)
        if r is not None:
            return r
        r = self.cache.get(n.id)
        if r is None:
            self.cache[n.id] = self.A(self.leaf(("node", n.id), n))  # cycles
            r = self._of(n)
            self.cache[n.id] = r
        return r

    def leafnode(self, n):
        return self.A(self.leaf(("node", n.id), n))

    def choose(self, n):
        """Follow phi nodes with assumed conditions."""
        while n.op == "phi":
            c = n.args[0]
            v = self.assume.get(c.id)
            if v is None and c.op == "not":
                w = self.assume.get(c.args[0].id)
                v = None if w is None else not w
            if v is None and self.decide is not None:
                v = self.decide(c)
            if v is None:
                self.conds[c.id] = c
                return n
            n = n.args[1] if v else n.args[2]
        return n

    def _of(self, n):
        n2 = self.choose(n)
        if n2 is not n:
            return self.of(n2)
        op = n.op
        if op == "el" and not n.data and n.args[0].op == "param":
            return self.of(n.args[0])
        if op == "const":
            v = n.data
            if isinstance(v, (int, float)):
                f = frac(v)
                if f is not None:
                    if isinstance(v, float):
                        import math
                        q = v / math.pi
                        for den in (1, 2, 3, 4, 6, 90, 180, 360):
                            for k in (1, 2, 3, 4):
                                if q == k / den or v == k * math.pi / den:
                                    return self.mul(self.C(Fraction(k, den)), self.A(self.PI))
                        if len(repr(v)) > 14 and 1 <= abs(v) < 1e12:      # an integer over pi
                            for den in (1, 2, 3, 12):
                                q = v * math.pi * den
                                if abs(q) < 1e13 and abs(q - round(q)) <= 4e-16 * abs(q) and q:
                                    return self.div(self.C(Fraction(round(q), den)), self.A(self.PI))
                        if len(repr(v)) > 14 and 1e-3 < abs(v) < 1e4:      # a square root
                            q = Fraction(v * v).limit_denominator(1000)
                            if abs(float(q) - v * v) <= 4e-16 * v * v and float(f.limit_denominator(1000)) != v:
                                r = self.sqrt(self.C(q))
                                return r if v > 0 else self.negate(r)
                    return self.C(f)
            if isinstance(v, complex):
                a, b = frac(v.real), frac(v.imag)
                if a is not None and b is not None:
                    return self.add(self.C(a), self.mul(self.C(b), self.A(self.I)))
            return self.A(self.leaf(("const", repr(v)), n))
        if op == "ext" and n.data in ("math.pi", "np.pi", "numpy.pi"):
            return self.A(self.PI)
        if op == "nsfn" and n.data[1] == "pi":
            return self.A(self.PI)
        if op == "nsfn" and n.data[1] == "e":
            return self.exp(self.C(1))
        if op == "bin":
            a, b = n.args
            o = n.data
            if o in "+-*/":
                x, y = self.of(a), self.of(b)
                try:
                    return {"+": self.add, "-": self.sub, "*": self.mul, "/": self.div}[o](x, y)
                except TooBig:
                    return self.leafnode(n)
            if o == "**":
                return self.pow(self.of(a), self.of(b), n)
            if o == "//":
                # exact halves of products of consecutive integers stay symbolic
                return self.A(self.fn("//", (self.of(a), self.of(b))))
            if o == "@":
                return self.A(self.fn("@", (self.of(a), self.of(b))))
            x, y = self.of(a), self.of(b)
            if o in "|&" and self.phis and all(r.atoms() and self.condition(r) for r in (x, y)):
                return self.A(self.fn("or" if o == "|" else "and", (x, y)))
            return self.A(self.fn("bin" + o, (x, y)))
        if op == "un":
            if n.data == "-":
                return self.negate(self.of(n.args[0]))
            if n.data == "+":
                return self.of(n.args[0])
            x = self.of(n.args[0])
            if n.data == "~" and self.phis and x.atoms() and self.condition(x):
                return self.A(self.fn("not", (x,)))
            return self.A(self.fn("un" + n.data, (x,)))
        if op == "global":
            return self.of(n.args[0])
        if op == "index":
            x, i = n.args
            if self.identity_index and self.newaxis_only(i):
                return self.of(x)
            if i.op == "const" and isinstance(i.data, int):
                r = self.pick(x, i.data)
                if r is not None:
                    return r
            return self.A(self.fn("index", (self.of(x), self.of(i))))
        if op in ("tuple", "list", "slice"):
            return self.A(self.fn(op + str(len(n.args)), tuple(self.of(a) for a in n.args)))
        if op == "attr":
            return self.A(self.fn("." + str(n.data), (self.of(n.args[0]),)))
        if op == "cmp":
            return self.A(self.fn("cmp" + n.data, tuple(self.of(a) for a in n.args)))
        if op in ("not", "and", "or"):
            return self.A(self.fn(op, tuple(self.of(a) for a in n.args)))
        if op == "call":
            return self.call(n)
        if op == "mcall":
            return self.A(self.fn(f"mcall:{n.data!r}", tuple(self.of(a) for a in n.args)))
        if op in ("update", "phi", "ucall", "star", "comp", "listof", "append", "masked"):
            return self.A(self.fn(f"{op}:{n.data!r}", tuple(self.of(a) for a in n.args)))
        return self.leafnode(n)

    def pick(self, n, k):
        """Element k of an expression that works elementwise on a list of known length, or None."""
        n = self.choose(n)
        if n.op in ("list", "tuple") and -len(n.args) <= k < len(n.args) and not any(a.op == "star" for a in n.args):
            return self.of(n.args[k])
        if n.op == "un" and n.data in "+-":
            r = self.pick(n.args[0], k)
            return r if r is None or n.data == "+" else self.negate(r)
        if n.op == "bin" and n.data in ("+", "-", "*", "/"):
            xs = [self.pick(a, k) for a in n.args]
            if all(x is None for x in xs):
                return None
            if n.data in "+*" and all(a.op in ("list", "tuple") for a in n.args):
                return None
            x, y = (self.of(a) if x is None else x for x, a in zip(xs, n.args))
            return {"+": self.add, "-": self.sub, "*": self.mul, "/": self.div}[n.data](x, y)
        if n.op == "mcall" and n.data[0] in self.elementwise:
            xs = [self.pick(a, k) for a in n.args[1:]]
            if any(x is not None for x in xs):
                args = [self.of(n.args[0])] + [self.of(a) if x is None else x for x, a in zip(xs, n.args[1:])]
                return self.A(self.fn(f"mcall:{n.data!r}", tuple(args)))
        if n.op == "call" and n.args:
            f, names = n.data
            ns, _, base = f.rpartition(".")
            if (ns in NS or ns.split(".")[0] in ("xp", "np")) and (base in self.ident or base == "stack"):
                return self.pick(n.args[0], k)
        return None

    def understood(self, r, ok, seen=None):
        """Every atom of r is a leaf accepted by ok(node or key) or a function applied to such."""
        seen = set() if seen is None else seen
        for a in r.atoms():
            if a in seen:
                continue
            seen.add(a)
            name, args, node = self.atoms_[a]
            if name == "leaf":
                if args in ("I", "pi"):
                    continue
                if not ok("leaf", node):
                    return False
                continue
            if name == "phi:None" and self.phis:
                if not self.condition(args[0]):
                    return False
            else:
                o = ok(name, None)
                if not o:
                    return False
                if o == "opaque":
                    continue
            if not all(self.understood(x, ok, seen) for x in args):
                return False
        return True

    def condition(self, r):
        """A condition made of comparisons."""
        for a in r.atoms():
            name, args, _ = self.atoms_[a]
            if name in ("not", "and", "or"):
                if not all(self.condition(x) for x in args):
                    return False
            elif name not in ("cmp<", "cmp<=", "cmp=="):
                return False
        return True

    @staticmethod
    def newaxis_only(i):
        xs = i.args if i.op == "tuple" else (i,)
        for x in xs:
            if x.op == "ellipsis" or (x.op == "const" and x.data is None):
                continue
            if x.op == "nsfn" and x.data[1] == "newaxis":
                continue
            if x.op == "slice" and all(a.op == "const" and a.data is None for a in x.args):
                continue
            return False
        return True

    def pow(self, a, b, n):
        if b.is_const():
            c = b.cval()
            try:
                if c.denominator == 1 and abs(c) <= 12:
                    return self.powi(a, int(c))
                if c.denominator == 2 and abs(c) <= 6:
                    return self.powi(self.sqrt(a), int(2 * c))
            except TooBig:
                return self.leafnode(n)
        return self.A(self.fn("pow", (a, b)))

    def call(self, n):
        f, names = n.data
        ns, _, base = f.rpartition(".")
        args = n.args
        kw = dict(zip(names, args))
        if ns in NS or ns.split(".")[0] in ("xp", "np", "math"):
            try:
                r = self.known(base, args, kw)
            except TooBig:
                r = None
            if r is not None:
                return r
            pairs = sorted(zip(names, args))
            return self.A(self.fn(base + ":" + ",".join(k for k, _ in pairs), tuple(self.of(a) for _, a in pairs)))
        if f in ("max", "min", "builtins.max", "builtins.min") and len(args) > (ns == "builtins") and all(k.isdigit() for k in names):
            return self.extreme(base, [self.of(a) for a in args])
        if f == "hp.almxfl" and "alm" in kw and "fl" in kw:
            # scaling of coefficients: successive filters multiply
            return self.mul(self.of(kw["alm"]), self.of(kw["fl"]))
        if f in ("builtins.float", "typing.cast", "builtins.complex") and args:
            return self.of(args[-1] if f == "typing.cast" else args[0])
        pairs = sorted(zip(names, args))
        return self.A(self.fn(f + ":" + ",".join(k for k, _ in pairs), tuple(self.of(a) for _, a in pairs)))

    def extreme(self, name, rs):
        """Largest or smallest of values, in a canonical order."""
        out, c = {}, None
        for r in rs:
            r = self.norm(r)
            for x in self.single(r, name) or (r,):
                if x.is_const():
                    v = x.cval()
                    c = v if c is None else max(c, v) if name == "max" else min(c, v)
                else:
                    out[repr((sorted(x.n.t.items()), sorted(x.d.t.items())))] = x
        if c is not None:
            if not out:
                return self.C(c)
            out[repr(c)] = self.C(c)
        xs = [out[k] for k in sorted(out)]
        return xs[0] if len(xs) == 1 else self.A(self.fn(name, tuple(xs)))

    def known(self, base, args, kw):
        of = self.of
        if base in self.ident and args:
            return of(args[0])
        if base in ("logical_or", "logical_and") and len(args) == 2 and self.phis:
            xs = tuple(of(a) for a in args)
            if all(x.atoms() and self.condition(x) for x in xs):
                return self.A(self.fn(base[8:], xs))
        if base == "logical_not" and len(args) == 1 and self.phis:
            x = of(args[0])
            if x.atoms() and self.condition(x):
                return self.A(self.fn("not", (x,)))
        if base in ("maximum", "minimum") and len(args) == 2:
            return self.extreme(base[:3], [of(a) for a in args])
        if base == "clip" and args:
            null = lambda a: a is None or a.op == "const" and a.data is None
            lo, hi = (kw.get(k, kw.get(i)) for k, i in (("min", "1"), ("max", "2")))
            if len(kw) == 1 + (lo is not None) + (hi is not None):
                r = of(args[0])
                r = r if null(lo) else self.extreme("max", [r, of(lo)])
                return r if null(hi) else self.extreme("min", [r, of(hi)])
        if self.fill and base in ("zeros_like", "zeros", "empty_like_zero"):
            return self.C(0)
        if self.fill and base in ("ones_like", "ones"):
            return self.C(1)
        if self.fill and base in ("full", "full_like") and "fill_value" in kw:
            return of(kw["fill_value"])
        if base == "broadcast_arrays_item":
            return of(args[0])
        if len(args) == 1:
            x = args[0]
            if base == "square":
                return self.powi(of(x), 2)
            if base == "sqrt":
                return self.sqrt(of(x))
            if base == "exp":
                return self.exp(of(x))
            if base == "expm1":
                return self.sub(self.exp(of(x)), self.C(1))
            if base == "log":
                return self.log(of(x))
            if base == "log1p":
                return self.log(self.add(self.C(1), of(x)))
            if base in ("radians", "deg2rad"):
                return self.div(self.mul(of(x), self.A(self.PI)), self.C(180))
            if base in ("degrees", "rad2deg"):
                return self.div(self.mul(of(x), self.C(180)), self.A(self.PI))
            if base == "sin":
                return self.odd("sin", of(x))
            if base == "cos":
                return self.odd("cos", of(x), even=True)
            if base in ("tan", "asin", "atan", "sinh", "tanh", "erf", "asinh", "atanh"):
                return self.odd(base, of(x))
            if base == "acos":
                return self.sub(self.div(self.A(self.PI), self.C(2)), self.odd("asin", of(x)))
            if self.real and base in ("conj", "conjugate"):
                return self.conj(of(x))
            if self.real and base == "real":
                z = of(x)
                return self.div(self.add(z, self.conj(z)), self.C(2))
            if self.real and base == "imag":
                z = of(x)
                return self.div(self.sub(z, self.conj(z)), self.mul(self.C(2), self.A(self.I)))
            if self.real and base == "abs":
                z = of(x)
                if self.I in z.atoms():
                    return self.sqrt(self.mul(z, self.conj(z)))
            if base in ("negative",):
                return self.negate(of(x))
            if base == "reciprocal":
                return self.div(self.C(1), of(x))
            if base == "positive":
                return of(x)
        if base == "atan2" and len(args) == 2:
            return self.atan2(of(kw.get("x1", args[0])), of(kw.get("x2", args[1])))
        if base == "hypot" and len(args) == 2:
            a, b = of(args[0]), of(args[1])
            return self.sqrt(self.add(self.mul(a, a), self.mul(b, b)))
        if base == "pow" and len(args) == 2:
            return self.pow(of(args[0]), of(args[1]), args[0])
        return None


class EllAlg(Alg):
    """Filters in multipole space: values for one multipole, positive (generic) or given."""

    def __init__(self, ell=None, **kw):
        super().__init__(**{"fill": True, **kw})
        self.ell = ell
        self.merge_sqrt = True

    def is_ell(self, n):
        if n.op == "call" and n.data[0].rpartition(".")[2] in self.ident and n.args:
            return self.is_ell(n.args[0])
        return n.op == "call" and n.data[0].rpartition(".")[2] == "arange"

    def holds(self, c):
        """Truth of a condition on the multipole, or None."""
        if c.op == "cmp" and c.data in ("<", "<=", "==") and len(c.args) == 2:
            d = self.sub(self.of(c.args[1]), self.of(c.args[0]))
            if d.is_const():
                v = d.cval()
                return v > 0 if c.data == "<" else v >= 0 if c.data == "<=" else v == 0
            if self.ell is None:
                a, b = c.args
                if self.is_ell(b) and a.op == "const" and a.data in (0, 0.0) and c.data in ("<", "=="):
                    return c.data == "<"
                if self.is_ell(b) and a.op == "const" and a.data in (1, 1.0) and c.data == "<=":
                    return True
                if self.is_ell(a) and b.op == "const" and b.data in (0, 0.0):
                    return False
                if self.is_ell(a) and b.op == "const" and b.data in (1, 1.0) and c.data == "<":
                    return False
        return None

    def _of(self, n):
        if n.op == "masked":
            return self.of(n.args[0])
        if n.op == "call" and n.data[0].endswith(".arange"):
            kw = dict(zip(n.data[1], n.args))
            start, stop = kw.get("start", kw.get("0")), kw.get("stop", kw.get("1"))
            if start is not None and (stop is None or (stop.op == "const" and stop.data is None)):
                return self.C(self.ell) if self.ell is not None else self.A(self.fn("multipoles", (self.of(start),)))
        if n.op == "call" and n.data[0] == "hp.pixwin":
            kw = sorted((k, v) for k, v in zip(n.data[1], n.args) if k != "xp")
            return self.A(self.fn("hp.pixwin:" + ",".join(k for k, _ in kw), tuple(self.of(v) for _, v in kw)))
        return super()._of(n)

    def known(self, base, args, kw):
        if base == "where" and len(args) == 3:
            h = self.holds(args[0])
            if h is not None:
                return self.of(args[1 if h else 2])
        if base in ("clip", "maximum"):
            x = self.of(args[0])
            lo = kw.get("min", kw.get("x2", kw.get("1", args[1] if len(args) > 1 else None)))
            if lo is not None and lo.op == "const" and isinstance(lo.data, (int, float)):
                if x.is_const():
                    return x if x.cval() >= lo.data else self.of(lo)
                if lo.data <= 1 and self.ell is None:
                    return x   # products of positive multipoles
        return super().known(base, args, kw)

    def call(self, n):
        f, names = n.data
        if f.endswith("apply_where") and len(n.args) >= 3:
            h = self.holds(n.args[0])
            if h is not None:
                return self.of(n.args[1 if h else 2])
        return super().call(n)


def case_split(nodes, limit=6, assume=None, mk=None):
    """Yield (assumption, Alg, [RF]) for every combination of the branch conditions met."""
    todo = [dict(assume or {})]
    done = 0
    mk = mk or (lambda a: Alg(assume=a))
    while todo:
        a = todo.pop()
        alg = mk(a)
        rs = [alg.of(n) for n in nodes]
        new = [c for c in alg.conds.values() if c.id not in a]
        if new and len(a) < limit:
            c = min(new, key=lambda c: c.id)
            todo.append({**a, c.id: True})
            todo.append({**a, c.id: False})
            continue
        done += 1
        if done > 200:
            return
        yield a, alg, rs
