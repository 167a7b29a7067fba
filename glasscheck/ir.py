"""Value-dependence graph: hash-consed nodes with simplifying constructors."""

from __future__ import annotations

import math


class Node:
    __slots__ = ("id", "op", "args", "data", "loc", "back", "meta")

    def __init__(self, id, op, args, data, loc):
        self.id = id
        self.op = op
        self.args = args
        self.data = data
        self.loc = loc
        self.back = None  # only for mu nodes
        self.meta = None

    def __repr__(self):
        return show(self, 3)


def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "const":
        return repr(n.data)
    if n.op in ("param", "ext", "func", "cls"):
        return str(n.data[-1] if isinstance(n.data, tuple) else n.data)
    if depth <= 0:
        return f"{n.op}#{n.id}"
    a = [show(x, depth - 1) for x in n.args]
    if n.op == "bin":
        return f"({a[0]} {n.data} {a[1]})"
    if n.op == "cmp":
        return f"({a[0]} {n.data} {a[1]})"
    if n.op == "attr":
        return f"{a[0]}.{n.data}"
    if n.op == "index":
        return f"{a[0]}[{a[1]}]"
    if n.op == "call":
        f, names = n.data
        return f"{f}(" + ", ".join(f"{k}={v}" if not k.isdigit() else v for k, v in zip(names, a)) + ")"
    if n.op == "tuple":
        return "(" + ", ".join(a) + ")"
    if n.op == "not":
        return f"not {a[0]}"
    if n.op == "mu":
        return f"mu#{n.id}[{n.data[-1]}]({a[0]})"
    d = "" if n.data is None else f"[{n.data}]"
    return f"{n.op}{d}(" + ", ".join(a) + ")"


class Graph:
    def __init__(self):
        self.table = {}
        self.nodes = []
        self.curloc = None
        self._uid = 0
        self.last_oid = 0

    def uid(self):
        self._uid += 1
        return self._uid

    def mk(self, op, args=(), data=None):
        key = (op, tuple(a.id for a in args), type(data).__name__ if op == "const" else None, data)
        try:
            n = self.table.get(key)
        except TypeError:
            key = (op, tuple(a.id for a in args), None, repr(data))
            n = self.table.get(key)
        if n is None:
            n = Node(len(self.nodes), op, tuple(args), data, self.curloc)
            self.table[key] = n
            self.nodes.append(n)
        return n

    # ---- constructors -------------------------------------------------
    def const(self, v):
        if isinstance(v, float) and math.isnan(v):
            return self.mk("ext", (), "nan")
        return self.mk("const", (), v)

    def tuple(self, elems):
        return self.mk("tuple", tuple(elems))

    def opaque(self, why):
        return self.mk("opaque", (), (why, self.uid()))

    def unknown(self, why, args=()):
        """A deterministic but unmodelled function of its arguments."""
        return self.mk("unknown", tuple(args), why)

    def bin(self, op, a, b):
        if a.op == "const" and b.op == "const":
            v = self._fold(op, a.data, b.data)
            if v is not None:
                return self.const(v)
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return self.tuple(a.args + b.args)
        if op == "*" and a.op == "tuple" and b.op == "const" and isinstance(b.data, int) and 0 <= b.data < 20:
            return self.tuple(a.args * b.data)
        return self.mk("bin", (a, b), op)

    @staticmethod
    def _fold(op, a, b):
        num = (int, float, complex)
        try:
            if isinstance(a, num) and isinstance(b, num):
                if op == "+": return a + b
                if op == "-": return a - b
                if op == "*": return a * b
                if op == "/": return a / b
                if op == "//": return a // b
                if op == "%": return a % b
                if op == "**" and abs(b) < 64: return a ** b
            if isinstance(a, str) and isinstance(b, str) and op == "+":
                return a + b
        except Exception:
            return None
        return None

    def un(self, op, a):
        if a.op == "const":
            try:
                if op == "-": return self.const(-a.data)
                if op == "+": return self.const(+a.data)
                if op == "~" and not isinstance(a.data, bool): return self.const(~a.data)
            except Exception:
                pass
        if op == "-" and a.op == "un" and a.data == "-":
            return a.args[0]
        return self.mk("un", (a,), op)

    def truth(self, n):
        """Constant truth value, or None."""
        if n.op == "const":
            return bool(n.data)
        if n.op == "tuple":
            return len(n.args) > 0
        if n.op == "not":
            t = self.truth(n.args[0])
            return None if t is None else not t
        if n.op in ("func", "cls", "closure", "bound", "lambda", "ns"):
            return True
        return None

    def neg(self, n):
        t = self.truth(n)
        if t is not None:
            return self.const(not t)
        if n.op == "not":
            return n.args[0]
        return self.mk("not", (n,))

    def cmp(self, op, a, b):
        if op in ("is", "is not"):
            r = self._is(a, b)
            if r is not None:
                return self.const(r if op == "is" else not r)
            if op == "is not":
                return self.neg(self.cmp("is", a, b))
            if a.id > b.id and a.op == "const":
                a, b = b, a
            return self.mk("cmp", (a, b), "is")
        if op == "!=":
            if a is b and a.op in ("const",):
                return self.const(False)
            return self.neg(self.cmp("==", a, b))
        if op == "not in":
            return self.neg(self.cmp("in", a, b))
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            return self.cmp("<=", b, a)
        if a.op == "const" and b.op == "const":
            try:
                if op == "<": return self.const(a.data < b.data)
                if op == "<=": return self.const(a.data <= b.data)
                if op == "==": return self.const(a.data == b.data)
                if op == "in": return self.const(a.data in b.data)
            except Exception:
                pass
        if op == "in" and a.op == "const" and b.op in ("tuple", "set") and all(x.op == "const" for x in b.args):
            return self.const(any(a.data == x.data for x in b.args))
        if op == "==":
            if a.op == "tuple" and b.op == "tuple" and len(a.args) != len(b.args):
                return self.const(False)
            if a.op == "tuple" and not a.args and b is a:
                return self.const(True)
            if a.id > b.id:
                a, b = b, a
        return self.mk("cmp", (a, b), op)

    NONNULL = {"tuple", "bin", "un", "ref", "func", "cls", "closure", "lambda", "ns", "update",
               "set", "cmp", "not", "slice", "draw", "list", "dict", "bound", "gen", "fstr", "range"}

    def _is(self, a, b):
        if a is b and a.op in ("const", "cls", "func", "param", "ref"):
            return True
        if a.op == "const" and b.op == "const":
            return a.data is b.data or (a.data == b.data and type(a.data) is type(b.data))
        for x, y in ((a, b), (b, a)):
            if x.op == "ext" and x.data == "NotImplemented":
                if y is x:
                    return True
                if y.op in self.NONNULL or y.op in ("const", "param", "index"):
                    return False
                if y.op == "call" and y.data[0].split(".")[0] in ("xp", "np", "uxpx", "math", "hp", "builtins", "xpx"):
                    return False
                if y.op == "phi":
                    l, r = self._is(x, y.args[1]), self._is(x, y.args[2])
                    return l if l is not None and l == r else None
            if x.op == "const" and x.data is None:
                if y.op in self.NONNULL:
                    return False
                if y.op == "call" and y.data[0].split(".")[0] in ("xp", "np", "uxpx", "math", "hp", "builtins", "xpx"):
                    return False
                if y.op == "carr" or y.op == "param" and y.meta and y.meta.get("notnull"):
                    return False
                if y.op == "phi":
                    l = self._is(x, y.args[1])
                    r = self._is(x, y.args[2])
                    if l is not None and l == r:
                        return l
                if y.op == "mu":
                    return None
                if y.op == "ext" and y.data != "nan":
                    return False
        if a.op == "cls" and b.op == "cls":
            return a is b
        if a.op == "ref" and b.op == "ref":
            return a is b
        return None

    def phi(self, c, a, b):
        if a is b:
            return a
        t = self.truth(c)
        if t is True:
            return a
        if t is False:
            return b
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if a.op == "phi" and a.args[0] is c:
            a = a.args[1]
        if b.op == "phi" and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        # x if x is None else y with y... : None is the same value
        if c.op == "cmp" and c.data == "is" and c.args[1].op == "const":
            k = c.args[1]
            if a is k and b is c.args[0]:
                return b
            if a is c.args[0]:
                a = k
                if a is b:
                    return a
                return self.mk("phi", (c, a, b)) if not (a is k and b is c.args[0]) else b
        return self.mk("phi", (c, a, b))

    def attr(self, x, name):
        return self.mk("attr", (x,), name)

    def index(self, x, i):
        if x.op in ("tuple", "list") and i.op == "const" and isinstance(i.data, int) and not isinstance(i.data, bool):
            k = i.data
            if -len(x.args) <= k < len(x.args) and not any(e.op == "star" for e in x.args):
                return x.args[k]
            if k >= 0 and not any(e.op == "star" for e in x.args[: k + 1]) and k < len(x.args):
                return x.args[k]
            if k < 0 and -k <= len(x.args) and not any(e.op == "star" for e in x.args[k:]):
                return x.args[k]
        if x.op in ("tuple", "list") and i.op == "slice" and all(a.op == "const" for a in i.args) \
                and not any(e.op == "star" for e in x.args):
            try:
                sl = slice(*[a.data for a in i.args])
                return self.mk(x.op, x.args[sl])
            except Exception:
                pass
        if x.op == "phi" and (x.args[1].op in ("tuple",) or x.args[2].op in ("tuple",)) and i.op == "const":
            return self.phi(x.args[0], self.index(x.args[1], i), self.index(x.args[2], i))
        if x.op == "dict" and i.op == "const":
            for k, v in zip(x.args[::2], x.args[1::2]):
                if k is i:
                    return v
        return self.mk("index", (x, i))

    def mu(self, key, init):
        n = self.mk("mu", (init,), key)
        return n


def deps(roots, through=None):
    """All nodes reachable from *roots* (following mu back edges)."""
    seen = {}
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        stack.extend(n.args)
        if n.back is not None:
            stack.append(n.back)
    return seen
