"""Evaluation along one path with element-wise decisions.

Where a function selects by a mask, or by the position of a largest element, the elements of the mask
and the position are decided one by one by the oracle, so that the selected elements are known.
"""

from __future__ import annotations

from .elem import Elements
from .fold import Folding

SMALL = 8


class Deciding(Folding):
    _elements = None
    turns = 24

    @property
    def elements(self):
        if self._elements is None:
            self._elements = Elements(self)
        return self._elements

    def vector(self, n):
        """Elements of a short one-dimensional array, or None."""
        if n.op in ("const", "slice", "tuple", "ref", "list", "ellipsis", "nsfn", "ns"):
            return None
        s = self.shape(n)
        if s is None or len(s) != 1 or not isinstance(s[0], int) or s[0] > SMALL:
            return None
        return [self.elements.at(n, (k,)) for k in range(s[0])]

    def positions(self, n):
        """Where a mask holds, or None if this is not a mask."""
        if self.oracle is None:
            return None
        xs = self.vector(n)
        if xs is None:
            return None
        sure = [self.const_bool(x) for x in xs]
        if not self.boolish(n) and any(t is None and not self.boolish(x) for t, x in zip(sure, xs)):
            return None
        if n.op == "carr" and not all(isinstance(v, bool) for v in n.data[1]):
            return None
        sure = [self.known(x) if t is None else t for x, t in zip(xs, sure)]
        return None if None in sure else [k for k, t in enumerate(sure) if t]

    def const_bool(self, x):
        neg = False
        while x.op in ("not", "un") and (x.op == "not" or x.data == "~"):
            x, neg = x.args[0], not neg
        return x.data != neg if x.op == "const" and isinstance(x.data, bool) else None

    def known(self, c):
        while c.op == "un" and c.data == "~":
            c = self.g.neg(c.args[0])
        return super().known(c)

    def where(self, i):
        """An index with masks replaced by positions."""
        if i.op == "tuple":
            return self.g.tuple([self.where(a) for a in i.args]) if any(a.op not in ("const", "slice") for a in i.args) else i
        p = self.positions(i)
        return i if p is None else self.carrf((len(p),), p)

    def sub(self, b, i):
        return super().sub(b, self.where(i))

    def setitem(self, b, i, v, t, aug):
        return super().setitem(b, self.where(i), v, t, aug)

    def call_method(self, b, name, args, kwargs, e):
        if name in ("any", "all", "min", "max", "argmin", "argmax", "nonzero") and not kwargs and not args and b.op not in ("ref", "tuple", "list", "dict"):
            r = self.pick(name, [self.freeze(b)], {})
            if r is not None:
                return r
        return super().call_method(b, name, args, kwargs, e)

    def call_ns(self, ns, name, args, kwargs):
        r = self.pick(name, [self.freeze(a) for a in args], dict(kwargs)) if all(k for k, _ in kwargs) else None
        return super().call_ns(ns, name, args, kwargs) if r is None else r

    def pick(self, name, args, kw):
        g = self.g
        if self.oracle is None or len(args) != 1 or not set(kw) <= {"axis"}:
            return None
        if name in ("nonzero", "flatnonzero", "any", "all", "count_nonzero"):
            p = self.positions(args[0])
            if p is None:
                return None
            if name.endswith("nonzero") and name != "count_nonzero":
                r = self.carrf((len(p),), p)
                return g.tuple([r]) if name == "nonzero" else r
            if name == "count_nonzero":
                return g.const(len(p))
            return g.const(bool(p) if name == "any" else len(p) == len(self.vector(args[0])))
        if name in ("argmin", "argmax", "min", "max"):
            xs = self.vector(args[0])
            if not xs:
                return None
            k = 0
            if len(xs) > 1:
                k = self.oracle(self, g.mk("call", tuple(xs), (f"choice:{name[-3:]}", tuple(map(str, range(len(xs)))))), len(xs))
                if k is None:
                    return None
            return g.const(k) if name.startswith("arg") else xs[k]
        return None
