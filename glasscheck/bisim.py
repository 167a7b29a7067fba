"""Structural equivalence of two values, up to the identity of freshly created objects and loops."""

from __future__ import annotations

from .ir import show

RENAMED = {"comp", "elem", "ref", "mu", "new", "draw", "closure", "lambda", "gen", "brk", "opaque"}
LEAF = {"const", "param", "attr", "ext", "cls", "func", "nsfn", "ns"}


class Bisim:
    def __init__(self, it1, it2):
        self.h1, self.h2 = it1.state.heap, it2.state.heap
        self.o1, self.o2 = it1.objs, it2.objs
        self.pairs = {}
        self.fwd, self.bwd = {}, {}
        self.bad = None

    def fail(self, a, b):
        if self.bad is None:
            self.bad = (a, b)
        return False

    def rename(self, kind, x, y):
        k1, k2 = (kind, repr(x)), (kind, repr(y))
        if self.fwd.setdefault(k1, k2) != k2 or self.bwd.setdefault(k2, k1) != k1:
            return False
        return True

    def eq(self, a, b):
        if (a.id, b.id) in self.pairs:
            return True
        self.pairs[(a.id, b.id)] = True
        if a.op != b.op or len(a.args) != len(b.args):
            return self.fail(a, b)
        if a.op == "ref":
            if not self.rename("ref", a.data, b.data):
                return self.fail(a, b)
            i, j = self.o1.get(a.data, {}), self.o2.get(b.data, {})
            if i.get("kind") != j.get("kind") or i.get("cls") != j.get("cls") or i.get("name") != j.get("name"):
                return self.fail(a, b)
            x, y = self.h1.get(a.data, {}), self.h2.get(b.data, {})
            if set(x) != set(y):
                return self.fail(a, b)
            if not all(self.eq(x[k], y[k]) for k in x):
                return False
            v, w = i.get("vals"), j.get("vals")
            if isinstance(v, dict) and isinstance(w, dict):
                return set(v) == set(w) and all(self.eq(v[k], w[k]) for k in v) or self.fail(a, b)
            return True
        if a.op in RENAMED and not (a.data == b.data):
            if not self.rename(a.op, a.data, b.data):
                return self.fail(a, b)
        elif a.data != b.data or type(a.data) is not type(b.data):
            return self.fail(a, b)
        if not all(self.eq(x, y) for x, y in zip(a.args, b.args)):
            return False
        if (a.back is None) != (b.back is None):
            return self.fail(a, b)
        return a.back is None or self.eq(a.back, b.back)


def compare(it1, a, it2, b):
    """True, or (False, where they differ, definitely)."""
    z = Bisim(it1, it2)
    if z.eq(a, b):
        return True, "", False
    x, y = z.bad
    definite = x.op in LEAF and y.op in LEAF and x.op != "attr"
    if x.op == y.op == "ref":
        i, j = it1.objs.get(x.data, {}), it2.objs.get(y.data, {})
        definite = i.get("kind") == j.get("kind") == "inst" and i.get("cls") != j.get("cls")
        return False, f"{i.get('cls', i.get('kind'))} instead of {j.get('cls', j.get('kind'))}", definite
    return False, f"{show(x, 4)} instead of {show(y, 4)}", definite
