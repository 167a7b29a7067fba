"""Elements of symbolic arrays whose shapes are known.

Given the value graph of a function for known lengths, `Elements.at(node, index)` follows one element
of an array back through updates, slices, broadcasting, stacking and elementwise operations to the
elements of the parameters it is made of.  What is not understood becomes an element of its own.
"""

from __future__ import annotations

import itertools
import math

from .fold import NARROW, Folding, broadcast

ELEMWISE = {"exp", "log", "sqrt", "sin", "cos", "tan", "abs", "floor", "ceil", "real", "imag", "conj", "clip", "minimum", "maximum",
            "expm1", "log1p", "asin", "acos", "atan", "atan2", "degrees", "radians", "isnan", "isfinite", "sign", "round", "square",
            "hypot", "remainder", "mod", "less", "greater", "equal", "sinh", "cosh", "tanh", "power", "pow", "deg2rad", "rad2deg", "fabs", "absolute"} | NARROW
ARITH = {"divide": "/", "true_divide": "/", "multiply": "*", "add": "+", "subtract": "-"}
SAME = {"asarray", "array", "astype", "copy", "asanyarray", "ascontiguousarray", "positive"}
# options that change what a function does, with the values that leave it as it is
SPECIAL = {"where": (True,), "initial": (), "out": (), "prepend": (), "append": (), "order": ("C", "K", "A"), "mode": ("constant",), "offset": (0,),
           "ddof": (0,), "correction": (0,), "retstep": (False,)}


def g_pick(g, x, j, rest):
    """Element of an array at a position that is not known."""
    return g.mk("call", (x, j, *[g.const(i) for i in rest]), ("pick", tuple(map(str, range(2 + len(rest))))))


class Elements:
    def __init__(self, it: Folding):
        self.it = it
        self.g = it.g
        self.memo = {}

    def shape(self, n):
        return self.it.shape(n)

    def leaf(self, n, idx):
        return self.g.mk("el", (n,), tuple(idx))

    def all(self, n, shape=None):
        """Every (index, element) of an array with a known shape, or None."""
        s = shape if shape is not None else self.shape(n)
        if s is None or not all(isinstance(d, int) for d in s):
            return None
        return [(ix, self.at(n, ix)) for ix in itertools.product(*[range(d) for d in s])]

    def at(self, n, idx):
        idx = tuple(idx)
        k = (n.id, idx)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = self.leaf(n, idx)
            r = self._at(n, idx)
            self.memo[k] = r
        return r

    def bat(self, n, idx):
        """Element of an operand broadcast to the index."""
        s = self.shape(n)
        if s is None:
            return None
        if len(s) > len(idx):
            return None
        tail = idx[len(idx) - len(s):]
        return self.at(n, tuple(0 if d == 1 else i for d, i in zip(s, tail)))

    def _at(self, n, idx):
        g = self.g
        op = n.op
        if op == "global":
            return self.at(n.args[0], idx)
        if op == "const" or op in ("el", "pos") and not idx:
            return n
        if op == "carr":
            s, d = n.data
            k = 0
            for i, w in zip(idx, s):
                k = k * w + i
            return g.const(d[k])
        if op in ("index", "attr", "elem"):
            pt = self.it.part(n)
            if pt is not None:
                return self.leaf(g.index(pt[0], g.const(pt[1])), idx)
        if not idx and op in ("bin", "un", "cmp") and self.shape(n) is None:
            return n
        if op in ("bin", "cmp"):
            if op == "bin" and n.data == "@":
                return self.matmul(n, idx)
            a, b = (self.bat(x, idx) for x in n.args)
            if a is None or b is None:
                return self.leaf(n, idx)
            return self.it.binop(n.data, a, b) if op == "bin" else g.cmp(n.data, a, b)
        if op == "un":
            a = self.bat(n.args[0], idx)
            return self.leaf(n, idx) if a is None else g.un(n.data, a)
        if op == "not":
            a = self.bat(n.args[0], idx)
            return self.leaf(n, idx) if a is None else g.neg(a)
        if op == "phi":
            a, b = self.bat(n.args[1], idx), self.bat(n.args[2], idx)
            if a is None or b is None:
                return self.leaf(n, idx)
            t = self.shape(n.args[0])
            k = self.bat(n.args[0], idx) if t is not None else None
            return self.it.mkphi(n.args[0] if k is None else k, a, b)
        if op in ("tuple", "list"):
            if idx and idx[0] < len(n.args):
                return self.at(n.args[idx[0]], idx[1:])
            return self.leaf(n, idx)
        if op == "attr" and n.data in ("T", "mT"):
            s = self.shape(n.args[0])
            if s is not None and (len(s) == 2 or n.data == "T"):
                return self.at(n.args[0], tuple(reversed(idx)))
            if s is not None:
                return self.at(n.args[0], idx[:-2] + (idx[-1], idx[-2]))
        if op == "update":
            return self.update(n, idx)
        if op == "index":
            return self.index(n, idx)
        if op == "call":
            return self.call(n, idx)
        return self.leaf(n, idx)

    def sum(self, xs):
        r = None
        for x in xs:
            r = x if r is None else self.it.binop("+", r, x)
        return r if r is not None else self.g.const(0)

    def matmul(self, n, idx):
        a, b = n.args
        s, t = self.shape(a), self.shape(b)
        if s is None or t is None or not s or not t or not isinstance(s[-1], int) or s[-1] > 64:
            return self.leaf(n, idx)
        out = []
        for k in range(s[-1]):
            if len(s) == 1 and len(t) == 1:
                x, y = self.at(a, (k,)), self.at(b, (k,))
            elif len(t) == 1:
                x, y = self.at(a, (*idx, k)), self.at(b, (k,))
            elif len(s) == 1:
                x, y = self.at(a, (k,)), self.at(b, (*idx[:-1], k, idx[-1]))
            else:
                x, y = self.bat2(a, (*idx[:-1], k), 2), self.bat2(b, (*idx[:-2], k, idx[-1]), 2)
                if x is None or y is None:
                    return self.leaf(n, idx)
            out.append(self.it.binop("*", x, y))
        return self.sum(out)

    def bat2(self, n, idx, keep):
        s = self.shape(n)
        if s is None or len(s) > len(idx):
            return None
        tail = idx[len(idx) - len(s):]
        m = len(s) - keep
        return self.at(n, tuple(0 if d == 1 and j < m else i for j, (d, i) in enumerate(zip(s, tail))))

    # --------------------------------------------------------- indexing
    def parts(self, i, shape):
        """Index expression as one entry per dimension of the array: list of (kind, value) or None."""
        ix = list(i.args) if i.op == "tuple" else [i]
        out = []
        if any(a.op == "star" for a in ix):
            return None
        none = lambda a: (a.op == "const" and a.data is None) or (a.op == "nsfn" and a.data[1] == "newaxis")
        real = sum(1 for a in ix if not none(a) and a.op != "ellipsis")
        fill = len(shape) - real
        if fill < 0:
            return None
        if not any(a.op == "ellipsis" for a in ix):
            ix.append(self.g.mk("ellipsis"))
        k = 0
        for a in ix:
            if a.op == "ellipsis":
                for _ in range(fill):
                    out.append(("slice", range(shape[k])))
                    k += 1
            elif none(a):
                out.append(("new", None))
            elif a.op == "const" and isinstance(a.data, int):
                v = a.data + shape[k] if a.data < 0 else a.data
                if not 0 <= v < shape[k]:
                    return None
                out.append(("int", v))
                k += 1
            elif a.op == "slice" and all(z.op == "const" for z in a.args):
                out.append(("slice", range(*slice(*[z.data for z in a.args]).indices(shape[k]))))
                k += 1
            else:
                c = self.it.as_carr(a)
                if c is None or len(c[0]) > 1:
                    return None
                if c[0] == ():
                    out.append(("int", int(c[1][0])))
                else:
                    d = c[1]
                    if d and all(isinstance(z, bool) for z in d):
                        d = tuple(j for j, z in enumerate(d) if z)
                    out.append(("arr", tuple(z + shape[k] if z < 0 else z for z in d)))
                k += 1
        return out

    def index(self, n, idx):
        x, i = n.args
        s = self.shape(x)
        if s is None or not all(isinstance(d, int) for d in s):
            return self.leaf(n, idx)
        p = self.parts(i, s)
        if p is None and i.op not in ("tuple", "const", "slice") and not self.it.boolish(i):
            # one array of positions that are not known
            t = self.shape(i)
            if t is not None and len(t) <= len(idx):
                j = self.at(i, idx[:len(t)])
                return g_pick(self.g, x, j, idx[len(t):])
        if p is None or sum(1 for k, _ in p if k == "arr") > 1 and len({len(v) for k, v in p if k == "arr"}) > 1:
            return self.leaf(n, idx)
        narr = sum(1 for k, _ in p if k == "arr")
        src, k = [], 0
        apos = None
        try:
            for kind, v in p:
                if kind == "new":
                    k += 1
                elif kind == "int":
                    src.append(v)
                elif kind == "slice":
                    src.append(v[idx[k]])
                    k += 1
                else:
                    if apos is None or narr == 1:
                        apos = idx[k]
                        k += 1
                    src.append(v[apos])
        except IndexError:
            return self.leaf(n, idx)
        return self.at(x, tuple(src))

    def update(self, n, idx):
        """Last writer of an element."""
        x, i, v = n.args
        s = self.shape(x)
        if s is None or not all(isinstance(d, int) for d in s):
            return self.leaf(n, idx)
        if len(idx) != len(s):
            return self.leaf(n, idx)
        if i.op in ("cmp", "not", "and", "or", "un") or self.it.boolish(i) and i.op != "carr":
            c = self.bat(i, idx)
            w = self.bat(v, idx)
            if c is None or w is None or self.shape(v) not in ((), None):
                return self.leaf(n, idx)
            return self.it.mkphi(c, self.combine(n.data, self.at(x, idx), w), self.at(x, idx))
        p = self.parts(i, s)
        if p is None:
            return self.leaf(n, idx)
        pos, k = [], 0
        hit = True
        arrs = [v_ for kind, v_ in p if kind == "arr"]
        ahit = None
        if arrs:
            cand = None
            kk = 0
            for kind, val in p:
                if kind == "new":
                    continue
                if kind == "arr":
                    m = {j for j, z in enumerate(val) if z == idx[kk]}
                    cand = m if cand is None else cand & m
                kk += 1
            if not cand:
                return self.at(x, idx)
            ahit = max(cand)
        seen = False
        for kind, val in p:
            if kind == "new":
                pos.append(0)
                continue
            j = idx[k]
            k += 1
            if kind == "int":
                hit = hit and j == val
            elif kind == "slice":
                if j in val:
                    pos.append(val.index(j))
                else:
                    hit = False
            elif not seen:
                pos.append(ahit)
                seen = True
            if not hit:
                return self.at(x, idx)
        if v.op in ("tuple", "list") or self.shape(v) is not None:
            w = self.bat(v, tuple(pos))
        elif v.op == "const":
            w = v
        else:
            w = None
        if w is None:
            w = self.leaf(v, tuple(pos))
        return self.stored(x, self.combine(n.data, self.at(x, idx), w))

    def stored(self, x, v):
        """A value as an array made for fewer digits keeps it."""
        while x.op == "update":
            x = x.args[0]
        if x.op != "call" or v.op in ("const", "call") and (v.op == "const" or v.data[0].rpartition(".")[2] in NARROW) or self.it.boolish(v):
            return v
        d = dict(zip(x.data[1], x.args)).get("dtype")
        d = d.data[1] if d is not None and d.op == "nsfn" else d.data.rpartition(".")[2] if d is not None and d.op == "ext" else None
        return self.g.mk("call", (v,), (f"xp.{d}", ("x",))) if d in NARROW else v

    def combine(self, how, old, new):
        o = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "power": "**"}.get(how)
        if how == "set":
            return new
        if o:
            return self.it.binop(o, old, new)
        return self.g.mk("call", (old, new), (f"xp.{how}", ("0", "1")))

    # ------------------------------------------------------------ calls
    def order(self, base, args, nd):
        """Axes of the argument of a transpose in the order of its result, or None."""
        a = [self.it.dims(x) if x.op in ("tuple", "list", "ref", "carr") else (x.data,) if x.op == "const" else None for x in args]
        if any(x is None or not all(isinstance(k, int) for k in x) for x in a if x != (None,)):
            return None
        a = [x for x in a if x != (None,)]
        p = list(range(nd))
        flat = [k % nd for x in a for k in x]
        if base == "swapaxes":
            if len(flat) != 2:
                return None
            p[flat[0]], p[flat[1]] = p[flat[1]], p[flat[0]]
            return p
        if not flat:
            return p[::-1]
        return flat if sorted(flat) == p else None

    def call(self, n, idx):
        g = self.g
        f, names = n.data
        ns, _, base = f.rpartition(".")
        kw = dict(zip(names, n.args))
        top = ns.split(".")[0]
        ew = getattr(self.it.cfg, "elementwise", {}).get(f)
        if ew is not None:
            xs = [self.bat(a, idx) if k in ew else a for k, a in zip(names, n.args)]
            return self.leaf(n, idx) if None in xs else g.mk("call", tuple(xs), n.data)
        if top not in ("xp", "np", "jnp", "xpx", "uxpx", "math"):
            return self.leaf(n, idx) if idx else n
        first = n.args[0] if n.args else None
        if base not in ARITH and any(k in kw and not (kw[k].op == "const" and kw[k].data in (None, *v)) for k, v in SPECIAL.items()):
            return self.leaf(n, idx)
        if base in ("zeros", "zeros_like"):
            return g.const(0)
        if base in ("ones", "ones_like"):
            return g.const(1)
        if base in ("full", "full_like"):
            v = kw.get("fill_value", n.args[-1])
            r = self.bat(v, idx)
            return v if r is None else r
        if base in ("empty", "empty_like"):
            return g.mk("uninitialised", (n,), idx)
        if base == "eye":
            return g.const(1 if idx[0] == idx[1] else 0)
        if base in SAME:
            return self.at(first, idx)
        kd = kw.get("keepdims")
        if kd is not None and base in ("max", "min", "any", "all", "sum", "prod", "mean"):
            if kd.op != "const":
                return self.leaf(n, idx)
            ax = kw.get("axis")
            if kd.data:
                s = self.shape(first)
                if s is None or ax is not None and (ax.op != "const" or ax.data is not None and not isinstance(ax.data, int)):
                    return self.leaf(n, idx)
                if ax is None or ax.data is None:
                    idx = ()
                else:
                    a = ax.data % len(s)
                    idx = idx[:a] + idx[a + 1:]
            kw = {k: v for k, v in kw.items() if k != "keepdims"}
        if base == "where" and len(n.args) == 3:
            c, a, b = (self.bat(x, idx) for x in n.args)
            if None not in (c, a, b):
                return self.it.mkphi(c, a, b)
            return self.leaf(n, idx)
        if base == "broadcast_arrays_item" or base == "broadcast_to":
            r = self.bat(first, idx)
            return self.leaf(n, idx) if r is None else r
        if base == "arange":
            v = [self.at(x, ()) if x is not None and self.shape(x) == () else x for x in map(kw.get, ("start", "stop", "step"))]
            st = v[0] if v[1] is not None else g.const(0)
            if st is not None:
                step = v[2] if v[2] is not None else g.const(1)
                return self.it.binop("+", st, self.it.binop("*", g.const(idx[0]), step))
        if base == "linspace" and "num" in kw and kw["num"].op == "const" and isinstance(kw["num"].data, int):
            k = kw["num"].data
            a, b = (self.at(x, ()) if self.shape(x) == () else x for x in (kw["start"], kw["stop"]))
            e = kw.get("endpoint")
            if e is None or e.op == "const":
                m = k - 1 if e is None or e.data else k
                if idx[0] == 0:
                    return a
                if idx[0] == m:
                    return b
                if m > 0:
                    return self.it.binop("+", a, self.it.binop("/", self.it.binop("*", g.const(idx[0]), self.it.binop("-", b, a)), g.const(m)))
        if base in ("stack", "concat"):
            a = self.it.content(first) if first.op == "ref" else first
            ax = kw.get("axis")
            ax = 0 if ax is None else ax.data if ax.op == "const" else None
            if a is not None and a.op in ("tuple", "list") and isinstance(ax, int):
                if ax < 0:
                    ax += len(idx)
                if base == "stack":
                    return self.at(a.args[idx[ax]], idx[:ax] + idx[ax + 1:])
                k = idx[ax]
                for y in a.args:
                    s = self.shape(y)
                    if s is None or not isinstance(s[ax], int):
                        return self.leaf(n, idx)
                    if k < s[ax]:
                        return self.at(y, idx[:ax] + (k,) + idx[ax + 1:])
                    k -= s[ax]
        if base == "reshape":
            s, t = self.shape(first), self.shape(n)
            if s is not None and t is not None and all(isinstance(d, int) for d in (*s, *t)):
                k = 0
                for i, w in zip(idx, t):
                    k = k * w + i
                src = []
                for w in reversed(s):
                    src.append(k % w if w else 0)
                    k //= w or 1
                return self.at(first, tuple(reversed(src)))
        if base in ("sum", "vecdot", "prod", "mean"):
            if base == "vecdot":
                s = self.shape(first)
                if s and ("axis" not in kw or kw["axis"].op == "const" and kw["axis"].data == -1) and isinstance(s[-1], int) and s[-1] <= 64:
                    return self.sum([self.it.binop("*", self.bat(n.args[0], (*idx, k)), self.bat(n.args[1], (*idx, k))) for k in range(s[-1])])
                return self.leaf(n, idx)
            s = self.shape(first)
            ax = kw.get("axis")
            if s is not None and all(isinstance(d, int) for d in s) and math.prod(s) <= 256 and "keepdims" not in kw:
                if ax is None or (ax.op == "const" and ax.data is None):
                    xs = [self.at(first, ix) for ix in itertools.product(*[range(d) for d in s])]
                elif ax.op == "const" and isinstance(ax.data, int):
                    a = ax.data % len(s)
                    xs = [self.at(first, idx[:a] + (k,) + idx[a:]) for k in range(s[a])]
                else:
                    return self.leaf(n, idx)
                if base == "prod":
                    r = g.const(1)
                    for x in xs:
                        r = self.it.binop("*", r, x)
                    return r
                r = self.sum(xs)
                return self.it.binop("/", r, g.const(len(xs))) if base == "mean" and xs else r
        if base in ("max", "min", "any", "all", "argmax", "argmin", "count_nonzero") and "keepdims" not in kw:
            s, ax = self.shape(first), kw.get("axis")
            if s is not None and all(isinstance(d, int) for d in s) and s and (ax is None or ax.op == "const"):
                if ax is None or ax.data is None:
                    over = list(itertools.product(*[range(d) for d in s])) if math.prod(s) <= 64 else None
                else:
                    a = ax.data % len(s)
                    over = [idx[:a] + (k,) + idx[a:] for k in range(s[a])] if s[a] <= 64 else None
                if over is not None:
                    xs = [self.at(first, ix) for ix in over]
                    return g.mk("call", tuple(xs), (base, tuple(map(str, range(len(xs))))))
        if base in ("cumsum", "cumulative_sum"):
            s, inc, ax = self.shape(first), kw.get("include_initial"), kw.get("axis")
            if s is not None and (inc is None or inc.op == "const") and (ax is None or ax.op == "const") and len(s) == len(idx) and \
                    (len(s) == 1 or ax is not None and isinstance(ax.data, int)):
                a = 0 if len(s) == 1 else ax.data % len(s)
                return self.sum([self.at(first, idx[:a] + (k,) + idx[a + 1:]) for k in range(idx[a] + (0 if inc is not None and inc.data else 1))])
            return self.leaf(n, idx)
        if base == "flip" and len(idx) == 1:
            s = self.shape(first)
            if s and isinstance(s[0], int):
                return self.at(first, (s[0] - 1 - idx[0],))
        if base in ("permute_dims", "transpose", "matrix_transpose", "swapaxes"):
            s = self.shape(first)
            if s is not None and base == "matrix_transpose":
                return self.at(first, idx[:-2] + (idx[-1], idx[-2]))
            p = self.order(base, n.args[1:], len(s)) if s is not None else None
            if p is not None and len(idx) == len(p):
                return self.at(first, tuple(idx[p.index(k)] for k in range(len(p))))
            return self.leaf(n, idx)
        if base == "diff" and self.shape(n) is not None and len(n.args) - ("axis" in kw) - (kw["n"].data == 1 if "n" in kw else 0) == 1:
            a = kw["axis"].data if "axis" in kw and kw["axis"].op == "const" else None if "axis" in kw else -1
            if isinstance(a, int):
                a %= len(idx)
                return self.it.binop("-", self.at(first, (*idx[:a], idx[a] + 1, *idx[a + 1:])), self.at(first, idx))
            return self.leaf(n, idx)
        if base == "repeat" and len(idx) == 1:
            m = self.it.repeats(n)
            return self.leaf(n, idx) if m is None else self.at(first, (m[idx[0]],))
        if base == "take" and self.shape(n) is not None:
            s, c = self.shape(first), self.it.as_carr(n.args[1])
            a = kw["axis"].data % len(s) if "axis" in kw else 0
            if c is not None and len(c[0]) == 1 and isinstance(s[a], int):
                return self.at(first, idx[:a] + (c[1][idx[a]] % s[a],) + idx[a + 1:])
        if base == "diagonal" and len(idx) >= 1 and self.shape(n) is not None and (len(idx) == 1 or ns.endswith("linalg")):
            return self.at(first, (*idx, idx[-1]))
        if base == "pad" and len(idx) == 1:
            s = self.shape(first)
            w = self.it.dims(n.args[1])
            if s and w and len(w) == 2 and all(isinstance(z, int) for z in (*w, s[0])):
                k = idx[0] - w[0]
                return self.at(first, (k,)) if 0 <= k < s[0] else kw.get("constant_values", g.const(0))
        if base in ARITH and len(n.args) >= 2 and set(names[2:]) <= {"where", "out", "dtype"}:
            a, b = (self.bat(x, idx) for x in n.args[:2])
            c, o = (self.bat(kw[k], idx) if k in kw else None for k in ("where", "out"))
            if a is None or b is None or "where" in kw and None in (c, o):
                return self.leaf(n, idx)
            t = True if c is None else self.it.g.truth(c)
            if t is False:
                return o
            r = self.it.binop(ARITH[base], a, b)
            return r if t else self.it.mkphi(c, r, o)
        if base in ELEMWISE:
            xs = []
            for k, a in zip(names, n.args):
                if k in ("dtype", "copy", "device", "xp", "decimals") or (a.op == "const" and a.data is None):
                    xs.append(a)
                    continue
                b = self.bat(a, idx)
                if b is None:
                    return self.leaf(n, idx)
                xs.append(b)
            return g.mk("call", tuple(xs), n.data)
        return self.leaf(n, idx) if idx else n
