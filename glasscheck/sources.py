"""Which elements of the inputs and which random numbers an output element is computed from."""

from __future__ import annotations

import math

from .ir import show

SKIP = {"const", "carr", "nsfn", "ext", "ns", "ref", "mod", "fn", "cls", "ellipsis", "slice", "lambda", "closure", "star"}

THROUGH = {"bin", "un", "cmp", "not", "and", "or", "phi", "call", "tuple", "list", "index", "update", "attr"}


class Sources:
    """Sets of ("el", array, index), ("draw", number of the draw, index), ("whole", array),
    ("scalar", name), ("uninit",) and ("?", text)."""

    def __init__(self, case, limit=64):
        self.z = case
        self.E = case.E
        self.g = case.g
        self.limit = limit
        self.memo = {}

    def of(self, n):
        n = self.g.nodes[n.id]
        r = self.memo.get(n.id)
        if r is None:
            self.memo[n.id] = frozenset()
            r = self.memo[n.id] = frozenset(self._of(n))
        return r

    def _of(self, n):
        op = n.op
        if op in SKIP:
            return ()
        if op == "global":
            return self.of(n.args[0]) if n.args else ()
        if op == "uninitialised":
            return {("uninit",)}
        if op == "param":
            s = self.z.it.shape(n)
            return {("whole" if s else "scalar", n.data[1])}
        if op == "draw":
            return {("draw", n.data[-1], ())} if self.z.it.shape(n) == () else {("?", show(n, 2))}
        if op == "el":
            b = n.args[0]
            if b.op == "param":
                return {("el", b.data[1], n.data) if n.data else ("scalar", b.data[1])}
            if b.op == "draw":
                return {("draw", b.data[-1], n.data)}
            if b.op == "mu":
                out = set(self.of(self.E.at(b.args[0], n.data)))
                back = getattr(b, "back", None)
                if back is not None and back is not b:
                    out |= {s for s in self.of(self.E.at(back, n.data)) if s[0] in ("el", "uninit")}
                return out
            return {("?", show(b, 3))}
        s = self.z.it.shape(n)
        if s and all(isinstance(d, int) for d in s) and math.prod(s) <= self.limit:
            out = set()
            for _, e in self.E.all(n, s):
                if not (e.op == "el" and e.args[0] is n):
                    out |= self.of(e)
                else:
                    out.add(("?", show(n, 3)))
            return out
        if op not in THROUGH:
            return {("?", show(n, 3))}
        out = set()
        for a in n.args:
            out |= self.of(a)
        return out


def borders(case, size):
    """Positions next to every constant that occurs in a slice or index, and both ends."""
    out = {0, 1, size - 1, size - 2, size // 2}
    for n in case.g.nodes:
        if n.op == "slice":
            for a in n.args[:2]:
                if a.op == "const" and isinstance(a.data, int):
                    for k in (a.data - 1, a.data, a.data + 1):
                        out.add(k if k >= 0 else size + k)
    return sorted(k for k in out if 0 <= k < size)
