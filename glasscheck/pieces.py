"""One-dimensional grids of symbolic length as concatenated pieces.

An array is a list of pieces (length, element): the element is a node in which the position within
the piece is the node `pos`.  Grids (linspace, arange), concatenation, slices with constant ends and
elementwise operations are followed; anything else gives None.
"""

from __future__ import annotations

import math

ELEMWISE = {"exp", "log", "sqrt", "abs", "square", "clip", "minimum", "maximum", "power", "pow", "sin", "cos", "expm1", "log1p", "where"}
SAME = {"asarray", "array", "astype", "copy", "asanyarray", "ascontiguousarray", "positive"}


class Pieces:
    def __init__(self, case, minimal=False):
        self.minimal = minimal     # every length takes the smallest value it can have
        self.z = case
        self.it = case.it
        self.g = case.g
        self.A = case.A
        self.pos = self.g.mk("pos", ())
        self.memo = {}
        self.stop = None           # end and step of a range with an unknown number of samples

    def of(self, n):
        """List of (length node, element node), ("scalar", node) or None."""
        r = self.memo.get(n.id, 0)
        if r == 0:
            self.memo[n.id] = None
            r = self.memo[n.id] = self._of(n)
        return r

    def bin(self, op, a, b):
        return self.it.binop(op, a, b)

    def length(self, num):
        if num is None or num.op == "const":
            return num
        low, tight = self.low(num)
        if tight and low == int(low):
            if self.minimal:
                return self.g.const(max(0, int(low)))
            core = num
            while core.op == "bin" and core.data in ("+", "-") and any(a.op == "const" for a in core.args):
                core = next(a for a in core.args if a.op != "const")
            # any whole number above the bound can occur, whatever the edges are
            if core.id not in self.A.subst and core.op in ("call", "mcall"):
                self.A.subst[core.id] = self.A.of(self.g.mk("param", (), (self.z.q, f"samples{core.id}")))
        return num

    def lin(self, a, b, num, endpoint):
        if num.op == "const" and num.data == 1:
            return a
        m = self.bin("-", num, self.g.const(1)) if endpoint else num
        return self.bin("+", a, self.bin("/", self.bin("*", self.pos, self.bin("-", b, a)), m))

    def _of(self, n):
        g = self.g
        op = n.op
        if op == "global":
            return self.of(n.args[0])
        if op == "call":
            f, names = n.data
            base = f.rpartition(".")[2]
            kw = dict(zip(names, n.args))
            if base == "linspace":
                e = kw.get("endpoint")
                if e is not None and e.op != "const" or not {"start", "stop"} <= set(kw):
                    return None
                num = self.length(kw.get("num", g.const(50)))
                if num.op == "const" and num.data == 0:
                    return []
                return [(num, self.lin(kw["start"], kw["stop"], num, e is None or bool(e.data)))]
            if base == "arange" and {"start", "stop", "step"} <= set(kw):
                self.stop = (kw["stop"], kw["step"])
                return [(None, self.bin("+", kw["start"], self.bin("*", self.pos, kw["step"])))]
            if base in SAME and n.args:
                return self.of(n.args[0])
            if base in ("concat", "concatenate", "hstack"):
                a = n.args[0]
                a = self.it.content(a) if a.op == "ref" else a
                if a is None or a.op not in ("tuple", "list"):
                    return None
                out = []
                for x in a.args:
                    p = self.of(x)
                    if not isinstance(p, list):
                        return None
                    out += p
                return out
            if base in ("ones_like", "zeros_like"):
                p = self.of(n.args[0])
                return [(m, g.const(1 if base == "ones_like" else 0)) for m, _ in p] if isinstance(p, list) else None
            if base in ("ones", "zeros"):
                return [(self.length(kw.get("shape", n.args[0])), g.const(1 if base == "ones" else 0))]
            if base == "flip":
                p = self.of(n.args[0])
                if isinstance(p, list) and all(m is not None for m, _ in p):
                    return [(m, self.at(e, self.bin("-", self.bin("-", m, g.const(1)), self.pos))) for m, e in reversed(p)]
                return None
            if base in ELEMWISE:
                return self.zip(n.args, lambda xs: g.mk("call", tuple(xs), n.data))
        if op in ("bin", "cmp"):
            return self.zip(n.args, lambda xs: self.bin(n.data, *xs) if op == "bin" else g.cmp(n.data, *xs))
        if op == "un":
            return self.zip(n.args, lambda xs: g.un(n.data, xs[0]))
        if op == "index" and n.args[1].op == "slice":
            a, b, s = (x.data if x.op == "const" else "?" for x in n.args[1].args)
            p = self.of(n.args[0])
            if isinstance(p, list) and s in (None, 1) and (a is None or isinstance(a, int) and a >= 0) and (b is None or isinstance(b, int) and b < 0):
                if a and (len(p) != 1 or p[0][0] is None) or b and p[-1][0] is None:
                    return None
                p = list(p)
                if b:
                    p[-1] = (self.bin("+", p[-1][0], g.const(b)), p[-1][1])
                if a:
                    p[0] = (self.bin("-", p[0][0], g.const(a)), self.at(p[0][1], self.bin("+", self.pos, g.const(a))))
                return p
            return None
        if op == "ucall" and len(n.args) == 2:
            # a function of the caller acts on each element
            return self.zip(n.args[1:], lambda xs: g.mk("call", (n.args[0], *xs), ("apply", ("0", "1"))))
        if self.z.it.shape(n) == () or op == "const":
            return ("scalar", n)
        if op in ("phi",):
            return None
        return None

    def zip(self, args, f):
        ps = [self.of(a) for a in args]
        if any(p is None for p in ps):
            return None
        arrs = [p for p in ps if isinstance(p, list)]
        if not arrs:
            return ("scalar", f([p[1] for p in ps]))
        k = len(arrs[0])
        if any(len(p) != k for p in arrs):
            return None
        out = []
        for j in range(k):
            m = arrs[0][j][0]
            for p in arrs[1:]:
                if m is not p[j][0] and not (m is not None and p[j][0] is not None and self.A.eq(self.A.of(m), self.A.of(p[j][0]))):
                    return None
            out.append((m, f([p[j][1] if isinstance(p, list) else p[1] for p in ps])))
        return out

    def at(self, e, k):
        """Element expression at a position."""
        memo = {}

        def go(x):
            if x is self.pos:
                return k
            if not x.args:
                return x
            r = memo.get(x.id)
            if r is None:
                a = [go(y) for y in x.args]
                if all(u is v for u, v in zip(a, x.args)):
                    r = x
                elif x.op == "bin":
                    r = self.bin(x.data, *a)
                else:
                    r = self.g.mk(x.op, tuple(a), x.data)
                memo[x.id] = r
            return r
        return go(e)

    def first(self, p):
        return self.at(p[0][1], self.g.const(0))

    def last(self, p):
        m, e = p[-1]
        return None if m is None else self.at(e, self.bin("-", m, self.g.const(1)))

    # ---------------------------------------------------------- bounds
    def low(self, n):
        """(lower bound, attained) of a number; -inf if there is none."""
        if n is None:
            return (-math.inf, False)
        if n.op == "const" and isinstance(n.data, (int, float)):
            return (n.data, True)
        if n.op == "call":
            base = n.data[0].rpartition(".")[2]
            kw = dict(zip(n.data[1], n.args))
            if base in ("max", "maximum") and len(n.args) >= 2:
                bs = [self.low(a) for a in n.args if not (a.op == "const" and a.data is None)]
                best = max(b[0] for b in bs)
                # the bound is attained if the other arguments can be smaller
                return (best, any(b[0] == best and b[1] is True for b in bs) and all(b[0] == best or b[0] < best for b in bs))
            if base in ("int", "float", "asarray", "astype", "round", "floor", "ceil", "rint", "item") and n.args:
                b = self.low(n.args[0])
                f = {"int": math.trunc, "round": round, "rint": round, "floor": math.floor, "ceil": math.ceil}.get(base)
                if b[1] == "near":
                    return (1, True) if base == "ceil" else b if f is None else (0, True)
                return b if f is None or math.isinf(b[0]) else (f(b[0]), b[1])
            if base == "clip" and ("min" in kw or len(n.args) > 1):
                return self.low(kw.get("min", n.args[1]))
        if n.op == "bin" and n.data == "/" and n.args[1].op == "param":
            return (0, "near")     # positive extent in units of an arbitrary resolution
        if n.op == "bin" and n.data in ("+", "-") and n.args[1].op == "const" and isinstance(n.args[1].data, (int, float)):
            b = self.low(n.args[0])
            return (b[0] + n.args[1].data, b[1]) if n.data == "+" else (b[0] - n.args[1].data, b[1])
        if n.op == "bin" and n.data == "+" and n.args[0].op == "const" and isinstance(n.args[0].data, (int, float)):
            b = self.low(n.args[1])
            return (b[0] + n.args[0].data, b[1])
        return (-math.inf, False)
