"""Constant propagation through containers, index arrays and shapes.

A refinement of the abstract interpreter for functions whose structure (numbers of fields, lengths,
chunk borders) is given: loops over known items are unrolled, arrays of known integers (index
arrays) are carried as constants, and shapes of symbolic arrays are propagated.  Array contents stay
symbolic.
"""

from __future__ import annotations

import functools
import itertools
import math
from fractions import Fraction

from . import interp as _i
from .interp import Config, Cut, Interp

LIMIT = 4096
ROWS = 64


# ------------------------------------------------------------- index arrays
def carr_shape(x):
    """Shape of nested lists, or None if ragged."""
    if isinstance(x, list):
        if not x:
            return (0,)
        s = [carr_shape(y) for y in x]
        if any(t is None or t != s[0] for t in s):
            return None
        return (len(x),) + s[0]
    return ()


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def nest(shape, data):
    if not shape:
        return data[0]
    if len(shape) == 1:
        return list(data)
    k = math.prod(shape[1:])
    return [nest(shape[1:], data[i * k:(i + 1) * k]) for i in range(shape[0])]


def broadcast(s, t):
    n = max(len(s), len(t))
    a, b = (1,) * (n - len(s)) + tuple(s), (1,) * (n - len(t)) + tuple(t)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x == y or y == 1:
                out.append(x)
            elif x == 1:
                out.append(y)
            else:
                return None
        elif x == 1:
            out.append(y)
        elif y == 1 or x is y:
            out.append(x)
        else:
            return None
    return tuple(out)


def expand(shape, data, to):
    """Flat data of an array broadcast to a shape."""
    n = len(to)
    s = (1,) * (n - len(shape)) + tuple(shape)
    strides = []
    k = 1
    for d in reversed(s):
        strides.append(0 if d == 1 else k)
        k *= d
    strides.reverse()
    return [data[sum(i * st for i, st in zip(ix, strides))] for ix in itertools.product(*[range(d) for d in to])]


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b,
       "%": lambda a, b: a % b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b,
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b}
MATH1 = {"floor", "ceil", "sqrt", "trunc", "abs", "round", "exp", "log", "isqrt", "sign", "square", "negative"}


def isnum(x):
    return isinstance(x, (int, float))


@functools.cache
def exposed(loop):
    """Names that a turn of a loop may read before it sets them."""
    import ast
    out = set()

    def loads(n, known):
        out.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and x.id not in known and not isinstance(x.ctx, ast.Store))

    def block(body, known):
        known = set(known)
        for s in body:
            if isinstance(s, ast.Assign):
                loads(s, known)
                known |= {x.id for t in s.targets if isinstance(t, (ast.Name, ast.Tuple)) for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(s, ast.AugAssign):
                loads(s, known)
                out.update({s.target.id} - known if isinstance(s.target, ast.Name) else ())
            elif isinstance(s, ast.If):
                loads(s.test, known)
                a, b = block(s.body, known), block(s.orelse, known)
                known |= a & b
            else:
                loads(s, known)
        return known
    loads(loop.test, set())
    block(loop.body, set())
    return out


def number(n):
    """Exact value of arithmetic of numbers, or None."""
    if n.op == "const" and isnum(n.data) and math.isfinite(n.data):
        return Fraction(str(n.data))
    if n.op == "index" and n.args[1].op == "const" and isinstance(n.args[1].data, int):
        x = n.args[0]
        while x.op == "call" and x.args and x.data[0].rpartition(".")[2] in ("asarray", "asanyarray", "array"):
            x = x.args[0]
        k = n.args[1].data
        if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args) and -len(x.args) <= k < len(x.args):
            return number(x.args[k])
    if n.op == "bin" and n.data in ("+", "-", "*", "/"):
        a, b = number(n.args[0]), number(n.args[1])
        if a is None or b is None or n.data == "/" and not b:
            return None
        return OPS[n.data](a, b) if n.data in OPS else a / b
    return None

NARROW = {"float32", "float16", "complex64", "single", "half", "csingle"}


class Folding(Interp):
    """Interpreter with known structure."""

    turns = LIMIT   # of a loop

    # ------------------------------------------------------------ carr
    def carr(self, x):
        s = carr_shape(x)
        if s is None:
            return None
        if s == ():
            return self.g.const(x)
        return self.g.mk("carr", (), (s, tuple(flat(x))))

    def carrf(self, shape, data):
        if shape == ():
            return self.g.const(data[0])
        return self.g.mk("carr", (), (tuple(shape), tuple(data)))

    def as_carr(self, n):
        """(shape, data) of a constant array, or None."""
        n = self.g.nodes[n.id]
        if n.op == "carr":
            return n.data
        if n.op == "call" and n.args and n.data[0].rpartition(".")[2] in ("asarray", "asanyarray") and n.args[0].op == "const" \
                and len(n.args) == 1:
            n = n.args[0]
        if n.op == "const" and isnum(n.data):
            return ((), (n.data,))
        if n.op == "ref" and self.objs[n.data]["kind"] in ("list", "deque"):
            n = self.content(n) or n
        if n.op in ("tuple", "list"):
            xs = [self.as_carr(a) for a in n.args]
            if any(x is None for x in xs):
                return None
            if not xs:
                return ((0,), ())
            if any(x[0] != xs[0][0] for x in xs):
                return None
            return ((len(xs),) + xs[0][0], tuple(v for x in xs for v in x[1]))
        return None

    def rows(self, n):
        s, d = n.data
        k = math.prod(s[1:])
        return [self.carrf(s[1:], d[i * k:(i + 1) * k]) for i in range(s[0])]

    # -------------------------------------------------------- iteration
    def gen_result(self, fr):
        r = super().gen_result(fr)
        base = len(self.loopstack)
        pcs = [pc for _, pc, _ in fr.yields] + [self.state.pc]
        exact = all(len(loops) == base for _, _, loops in fr.yields) and \
            all(b[:len(a)] == a for a, b in zip(pcs, pcs[1:]))
        return self.g.mk("gen", r.args, "exact") if exact else r

    def concrete_items(self, it, limit=LIMIT):
        limit = max(limit, LIMIT)
        if it.op == "carr":
            return self.rows(it)
        if it.op == "gen" and it.data == "exact":
            return list(it.args)
        if it.op in ("listof", "global") and len(it.args) == 1:
            return self.concrete_items(it.args[0], limit)
        if it.op == "ref":
            v = self.iter_value(it)
            return self.concrete_items(v, limit) if v is not it else None
        if it.op == "set" and all(a.op == "const" for a in it.args):
            return None
        if it.op == "call":
            f, names = it.data
            if f == "builtins.range" and all(a.op == "const" and isinstance(a.data, int) for a in it.args):
                try:
                    r = range(*[a.data for a in it.args])
                except Exception:
                    return None
                return [self.g.const(i) for i in r] if len(r) <= limit else None
            if f in ("itertools.combinations_with_replacement", "itertools.combinations", "itertools.permutations") and len(it.args) == 2 \
                    and it.args[1].op == "const":
                c = self.concrete_items(self.iter_value(it.args[0]), limit)
                if c is not None:
                    r = getattr(itertools, f[10:])(c, it.args[1].data)
                    return [self.g.tuple(t) for t in itertools.islice(r, limit)]
            if f == "itertools.product" and all(n.isdigit() for n in names):
                cs = [self.concrete_items(self.iter_value(a), limit) for a in it.args]
                if all(c is not None for c in cs):
                    return [self.g.tuple(t) for t in itertools.islice(itertools.product(*cs), limit)]
                return None
            if f == "itertools.pairwise":
                c = self.concrete_items(self.iter_value(it.args[0]), limit)
                return None if c is None else [self.g.tuple(t) for t in zip(c, c[1:])]
            if f == "itertools.accumulate" and len(it.args) == 1:
                c = self.concrete_items(self.iter_value(it.args[0]), limit)
                if c is not None:
                    out = []
                    for x in c:
                        out.append(x if not out else self.binop("+", out[-1], x))
                    return out
            if f == "itertools.islice" and all(a.op == "const" for a in it.args[1:]):
                c = self.concrete_items(self.iter_value(it.args[0]), limit)
                if c is not None:
                    return list(itertools.islice(c, *[a.data for a in it.args[1:]]))
            if f in ("builtins.list", "builtins.tuple", "builtins.iter") and len(it.args) == 1:
                return self.concrete_items(self.iter_value(it.args[0]), limit)
            if f in ("np.ndindex", "numpy.ndindex", "uxpx.ndindex", "xp.ndindex"):
                dims = [a for n, a in zip(names, it.args) if n != "xp"]
                d = self.as_carr(dims[0]) if len(dims) == 1 and dims[0].op in ("tuple", "list", "carr", "ref") else \
                    self.as_carr(self.g.tuple(dims))
                if d is not None and len(d[0]) == 1:
                    r = itertools.product(*[range(k) for k in d[1]])
                    return [self.g.tuple([self.g.const(i) for i in t]) for t in itertools.islice(r, limit)]
        r = super().concrete_items(it, limit)
        if r is None and it.op in ("param", "call", "bin", "un", "index", "update", "draw"):
            # rows of an array
            s = self.shape(it)
            if s and isinstance(s[0], int) and s[0] <= ROWS:
                return [self.sub(it, self.g.const(k)) for k in range(s[0])]
        return r

    @property
    def oracle(self):
        return getattr(self.cfg, "oracle", None)

    def known(self, c):
        """Truth of a condition; one path at a time is followed if there is an oracle."""
        t = super().known(c)
        if t is None and self.oracle is not None:
            while c.op == "not":
                c, t = c.args[0], not t
            v = self.oracle(self, c)
            if v is None:
                raise Cut
            self.assume(c, v)
            return v != bool(t)
        return t

    def st_For(self, st):
        it = self.iter_value(self.ev(st.iter))

        def run(it):
            it = self.iter_value(it)
            conc = self.concrete_items(it)
            if conc is not None:
                self.unroll(st, conc)
                return None
            if it.op == "phi" and all(self.concrete_items(self.iter_value(x)) is not None or x.op == "phi" for x in it.args[1:]):
                self.fork(it.args[0], lambda: run(it.args[1]), lambda: run(it.args[2]))
                return None
            self.symloop(st, it)
            return None
        run(it)

    def unpack(self, elts, v):
        v = self.iter_value(v)
        c = self.concrete_items(v) if v.op in ("carr", "gen", "call", "comp", "listof") else None
        if c is not None:
            v = self.g.tuple(c)
        return super().unpack(elts, v)

    def st_While(self, st):
        import ast as _ast
        for _ in range(self.turns):
            try:
                c = self.cond(st.test)
            except Cut:
                raise
            t = self.g.truth(c)
            if t is None and self.oracle is not None:
                t = self.known(c)
            if t is None:
                return super().st_While(st)
            if not t:
                if st.orelse:
                    self.block(st.orelse)
                return
            broke = []
            cont = []
            self.loopctl = getattr(self, "loopctl", [])
            self.loopctl.append((broke, cont))
            base = self.state.pc
            before, yields = self.standing(st), len(self.frames[-1].yields)
            fallen = True
            try:
                try:
                    self.block(st.body)
                    cont.append((self.state.pc, self.g.const(None), self.state))
                except Cut:
                    pass
            finally:
                self.loopctl.pop()
            if broke and cont:
                # leaving depends on values: no further unrolling
                self.gap("loop left on a condition that is not constant")
                _, self.state = self.merge_exits(broke, self.common_prefix([e[0] for e in broke]))
                return
            if not cont:
                if not broke:
                    raise Cut
                _, self.state = self.merge_exits(broke, self.common_prefix([e[0] for e in broke]))
                return
            _, self.state = self.merge_exits(cont, base)
            if not broke and self.standing(st) == before and not (isinstance(st.test, _ast.Constant) and len(self.frames[-1].yields) > yields):
                self.error("EndlessLoop", "a turn of the loop changes nothing that the next depends on")
        self.gap("loop limit")

    def standing(self, st):
        """Everything that a turn of a loop can depend on."""
        names = exposed(st)
        env = self.frames[-1].oid
        return {(o, k): v.id if hasattr(v, "id") else id(v) for o, d in self.state.heap.items() for k, v in d.items() if o != env or k in names or not isinstance(k, str)}

    # ------------------------------------------------------ expressions
    def binop(self, op, a, b):
        if op in OPS and ("carr" in (a.op, b.op)):
            x, y = self.as_carr(a), self.as_carr(b)
            if x is not None and y is not None:
                s = broadcast(x[0], y[0])
                if s is not None:
                    try:
                        return self.carrf(s, [OPS[op](u, v) for u, v in zip(expand(*x, s), expand(*y, s))])
                    except Exception:
                        pass
        if op in ("%", "**", "<<", ">>", "&", "|") and a.op == "const" and b.op == "const" and isnum(a.data) and isnum(b.data):
            try:
                return self.g.const({"<<": lambda p, q: p << q, ">>": lambda p, q: p >> q, **OPS}[op](a.data, b.data))
            except Exception:
                pass
        return super().binop(op, a, b)

    def cmp(self, o, a, b):
        if o in ("is", "is not"):
            x, y = self.unconverted(a), self.unconverted(b)
            if x is not y and x.op == y.op == "param":
                return self.g.const(o == "is not")
            if a is b and a.op in ("call", "param"):
                return self.g.const(o == "is")
        if "carr" in (a.op, b.op) and o in ("<", "<=", "==", ">", ">=", "!="):
            x, y = self.as_carr(a), self.as_carr(b)
            if x is not None and y is not None:
                s = broadcast(x[0], y[0])
                f = {**CMP, ">": lambda u, v: u > v, ">=": lambda u, v: u >= v, "!=": lambda u, v: u != v}[o]
                if s is not None:
                    return self.carrf(s, [f(u, v) for u, v in zip(expand(*x, s), expand(*y, s))])
        if o in ("==", "!=") and a.op == "tuple" and b.op == "tuple" and self.constlike(a) and self.constlike(b):
            return self.g.const((a is b) == (o == "=="))
        if o in ("in", "not in"):
            c = self.concrete_items(b) if b.op != "const" else None
            if c is None and b.op == "dict":
                c = list(b.args[::2])
            if c is not None and self.constlike(a) and all(self.constlike(x) for x in c):
                return self.g.const(any(x is a for x in c) == (o == "in"))
        return super().cmp(o, a, b)

    def unconverted(self, n):
        while n.op == "call" and n.args and n.data[0].rpartition(".")[2] in ("asarray", "asanyarray", "array"):
            n = n.args[0]
        return n

    def constlike(self, n):
        return n.op == "const" or (n.op == "tuple" and all(self.constlike(a) for a in n.args))

    def index_content(self, c, i):
        if c.op == "dict" and self.constlike(i):
            for k, v in zip(c.args[::2], c.args[1::2]):
                if k is i:
                    return v
        return super().index_content(c, i)

    def setitem(self, b, i, v, t, aug):
        if self.is_dict(b) and i.op == "tuple" and self.constlike(i):
            c = self.content(b)
            if c.op == "dict":
                d = list(c.args)
                for k in range(0, len(d), 2):
                    if d[k] is i:
                        d[k + 1] = v
                        break
                else:
                    d += [i, v]
                self.hset(b.data, "$", self.g.mk("dict", tuple(d)))
                return None
        return super().setitem(b, i, v, t, aug)

    def st_Try(self, st):
        self.trying = getattr(self, "trying", 0) + bool(st.handlers)
        try:
            return super().st_Try(st)
        finally:
            self.trying -= bool(st.handlers)

    def error(self, exc, why):
        """An operation on known structure that always fails."""
        if getattr(self, "trying", 0) or self.cfg.backend == "jax":
            return
        self.event("raise", self.g.opaque("exception"), exc=f"{exc} ({why})", implicit=True)
        raise Cut

    def updating(self, x, idx, val):
        self.out_of_range(x, idx, self.shape(x))
        s, v = self.shape(self.g.mk("index", (x, idx))), self.shape(val)
        if s is not None and v is not None and all(isinstance(d, int) for d in s + v) and broadcast(s, v) != s \
                and not (len(v) > len(s) and v[:len(v) - len(s)] == (1,) * (len(v) - len(s))):
            self.error("ValueError", f"shape {v} does not fit into {s}")

    def out_of_range(self, b, i, s=None):
        ix = list(i.args) if i.op == "tuple" else [i]
        if not all(a.op == "const" and isinstance(a.data, int) and not isinstance(a.data, bool) or
                   a.op == "slice" and all(z.op == "const" for z in a.args) for a in ix):
            return
        b = self.g.nodes[b.id]
        if s is not None:
            pass
        elif b.op == "carr":
            s = b.data[0]
        elif b.op == "param":
            s = self.shape(b)
        elif b.op in ("tuple", "list") and not any(a.op == "star" for a in b.args) and len(ix) == 1:
            s = (len(b.args),)
        else:
            return
        if s is None or not all(isinstance(d, int) for d in s):
            return
        if len(ix) > len(s):
            self.error("IndexError", f"{len(ix)} indices into shape {s}")
        for a, d in zip(ix, s):
            if a.op == "const" and not -d <= a.data < d:
                self.error("IndexError", f"index {a.data} into length {d}")

    def missing(self, b, i):
        """Whether a dictionary of known keys lacks a key."""
        if i.op != "const" or not isinstance(i.data, (str, int)):
            return False
        d = self.content(b) if self.is_dict(b) else b.args[0] if b.op == "global" and b.args else b
        return d is not None and d.op == "dict" and all(k.op == "const" and k.data != i.data for k in d.args[::2])

    def sub(self, b, i):
        if self.missing(b, i):
            self.error("KeyError", f"no key {i.data!r}")
            raise Cut
        self.out_of_range(b, i)
        if i.op == "tuple" and not i.args:
            c = self.as_carr(b)
            if c is not None and c[0] == ():
                return self.g.const(c[1][0])
        if b.op == "carr":
            r = self.carr_index(b, i)
            if r is not None:
                return r
        if b.op == "global" and b.args and b.args[0].op in ("carr", "dict"):
            r = self.index_content(b.args[0], i) if b.args[0].op == "dict" else self.carr_index(b.args[0], i)
            if r is not None and r.op != "index":
                return r
        if self.is_dict(b) and i.op == "tuple" and self.constlike(i):
            c = self.content(b)
            if c is not None and c.op == "dict":
                return self.index_content(c, i)
        return super().sub(b, i)

    def carr_index(self, b, i):
        s, d = b.data
        x = nest(s, list(d)) if d or len(s) == 1 else None
        if x is None:
            return None
        ix = list(i.args) if i.op == "tuple" else [i]
        if any(a.op == "star" for a in ix):
            return None
        if any(a.op == "ellipsis" for a in ix):
            k = next(j for j, a in enumerate(ix) if a.op == "ellipsis")
            n = self.g.const(None)
            real = sum(1 for a in ix if a.op != "ellipsis" and not (a.op == "const" and a.data is None))
            ix[k:k + 1] = [self.g.mk("slice", (n, n, n))] * (len(s) - real)
        adv = [self.as_carr(a) for a in ix if a.op in ("carr", "list")]
        if len(adv) > 1 or any(a is None or len(a[0]) != 1 for a in adv):
            return None

        def go(v, k):
            if k == len(ix):
                return v
            a = ix[k]
            if a.op == "const" and a.data is None:
                return [go(v, k + 1)]
            if not isinstance(v, list):
                raise IndexError
            if a.op == "const" and isinstance(a.data, int) and not isinstance(a.data, bool):
                return go(v[a.data], k + 1)
            if a.op == "slice" and all(z.op == "const" for z in a.args):
                return [go(y, k + 1) for y in v[slice(*[z.data for z in a.args])]]
            if a.op in ("carr", "list"):
                _, ds = self.as_carr(a)
                if ds and all(isinstance(z, bool) for z in ds):
                    if len(ds) != len(v):
                        raise IndexError
                    return [go(y, k + 1) for y, m in zip(v, ds) if m]
                return [go(v[z], k + 1) for z in ds]
            raise TypeError
        try:
            return self.carr(go(x, 0))
        except (IndexError, TypeError):
            return None

    def truthy(self, v):
        if v.op == "carr":
            s, d = v.data
            if len(d) == 1:
                return self.g.const(bool(d[0]))
        return super().truthy(v)

    # ---------------------------------------------------------- shapes
    def shape(self, n, depth=0):
        """Known shape (tuple of ints or nodes) of an array value, or None."""
        if depth > 200:
            return None
        n0 = n
        if n.meta and "shape" in n.meta and n.meta["shape"] is not None:
            return n.meta["shape"]
        s = self._shape(n, depth + 1)
        if s is not None and n0.op not in ("ref",):
            n0.meta = {**(n0.meta or {}), "shape": s}
        return s

    def dims(self, n):
        """Shape given as an argument."""
        if n.op == "ref":
            n = self.content(n) or n
        if n.op == "const" and isinstance(n.data, int):
            return (n.data,)
        if n.op in ("tuple", "list"):
            out = []
            for a in n.args:
                if a.op == "star":
                    d = self.dims(a.args[0])
                    if d is None:
                        return None
                    out.extend(d)
                else:
                    out.append(a.data if a.op == "const" and isinstance(a.data, int) else a)
            return tuple(out)
        if n.op == "carr" and len(n.data[0]) == 1:
            return tuple(n.data[1])
        if n.op in ("call", "index", "bin", "attr", "param"):
            return (n,)
        return None

    PARTS = {"eigh": ("eigenvalues", "eigenvectors")}

    def part(self, n):
        """(call, k) if n is the k-th part of the result of a decomposition."""
        if n.op not in ("index", "attr", "elem") or not n.args or n.args[0].op != "call":
            return None
        names = self.PARTS.get(n.args[0].data[0].rpartition(".")[2])
        if names is None:
            return None
        if n.op == "attr":
            k = names.index(n.data) if n.data in names else None
        elif n.op == "index":
            k = n.args[1].data if n.args[1].op == "const" else None
        else:
            k = n.data[0] if isinstance(n.data, tuple) and n.data else None
        return (n.args[0], k % len(names)) if isinstance(k, int) and -len(names) <= k < len(names) else None

    def _shape(self, n, depth):
        op = n.op
        if op in ("index", "attr", "elem"):
            pt = self.part(n)
            if pt is not None:
                s = self.shape(pt[0].args[0], depth)
                return None if not s else s[:-1] if pt[1] == 0 else s
        if op == "carr":
            return n.data[0]
        if op in ("el", "pos"):
            return ()
        if op == "const":
            return () if isinstance(n.data, (int, float, complex)) else None
        if op == "global":
            return self.shape(n.args[0], depth)
        if op in ("bin", "cmp"):
            a, b = self.shape(n.args[0], depth), self.shape(n.args[1], depth)
            if a is None or b is None:
                return None
            if op == "bin" and n.data == "@":
                if len(a) == 1 and len(b) == 1:
                    return ()
                if len(a) >= 1 and len(b) == 1:
                    return a[:-1]
                if len(a) == 1:
                    return b[:-2] + b[-1:]
                s = broadcast(a[:-2], b[:-2])
                return None if s is None else s + (a[-2], b[-1])
            return broadcast(a, b)
        if op in ("un", "not"):
            return self.shape(n.args[0], depth)
        if op in ("and", "or"):
            return None
        if op == "phi":
            a, b = self.shape(n.args[1], depth), self.shape(n.args[2], depth)
            return a if a == b else None
        if op == "update":
            return self.shape(n.args[0], depth)
        if op == "index":
            return self.index_shape(n, depth)
        if op == "attr" and n.data == "T":
            s = self.shape(n.args[0], depth)
            return None if s is None else tuple(reversed(s))
        if op == "attr" and n.args[0].op == "call" and n.args[0].data[0].rpartition(".")[2] in ("finfo", "iinfo"):
            return ()
        if op == "attr" and n.data in ("real", "imag", "mT"):
            s = self.shape(n.args[0], depth)
            return s if s is None or n.data != "mT" else s[:-2] + (s[-1], s[-2])
        if op in ("tuple", "list"):
            xs = [self.shape(a, depth) for a in n.args]
            if not xs:
                return (0,)
            if all(x is not None and x == xs[0] for x in xs):
                return (len(xs),) + xs[0]
            return None
        if op == "draw":
            names = n.data[1] if isinstance(n.data, tuple) and len(n.data) > 1 and isinstance(n.data[1], tuple) else ()
            kw = dict(zip(names, n.args[1:]))
            size = kw.get("size")
            pos = [v for k, v in zip(names, n.args[1:]) if k.isdigit()]
            m = n.data[0]
            if m.rpartition(".")[2] == "multinomial":
                v = kw.get("pvals", pos[1] if len(pos) > 1 else None)
                size = size if size is not None else pos[2] if len(pos) > 2 else None
                if v is not None and (size is None or (size.op == "const" and size.data is None)):
                    return self.shape(v, depth)
                return None
            if size is None:
                at = {"random": 0, "standard_normal": 0, "normal": 2, "uniform": 2, "poisson": 1, "integers": 2, "choice": 1,
                      "multinomial": 2}.get(m.rpartition(".")[2])
                if at is not None and len(pos) > at:
                    size = pos[at]
            if size is not None and not (size.op == "const" and size.data is None):
                return self.dims(size)
            ps = [self.shape(p, depth) for p in [*pos, *[v for k, v in kw.items() if not k.isdigit() and k != "size"]]]
            if m.rpartition(".")[2] in ("poisson", "normal", "uniform") and all(p is not None for p in ps):
                r = ()
                for p in ps:
                    r = broadcast(r, p) if r is not None else None
                return r
            return None
        if op == "call":
            return self.call_shape(n, depth)
        if op == "mu" and getattr(n, "back", None) is not None:
            # a loop keeps the shape of a value if one round does
            s = self.shape(n.args[0], depth)
            if s is None:
                return None
            old = n.meta
            n.meta = {**(old or {}), "shape": s}
            ok = n.back is n or self.shape(n.back, depth) == s
            n.meta = old
            return s if ok else None
        return None

    def index_shape(self, n, depth):
        x, i = n.args
        s = self.shape(x, depth)
        if s is None:
            return None
        ix = list(i.args) if i.op == "tuple" else [i]
        if any(a.op == "star" for a in ix):
            return None
        if any(a.op == "ellipsis" for a in ix):
            k = next(j for j, a in enumerate(ix) if a.op == "ellipsis")
            c = self.g.const(None)
            real = sum(1 for a in ix if a.op != "ellipsis" and not (a.op == "const" and a.data is None))
            ix[k:k + 1] = [self.g.mk("slice", (c, c, c))] * max(0, len(s) - real)
        out, k = [], 0
        adv = False
        for a in ix:
            if a.op == "const" and a.data is None or (a.op == "nsfn" and a.data[1] == "newaxis"):
                out.append(1)
                continue
            if k >= len(s):
                return None
            if a.op == "const" and isinstance(a.data, int):
                pass
            elif a.op == "slice":
                if all(z.op == "const" for z in a.args):
                    if isinstance(s[k], int):
                        if s[k] < 0:
                            return None
                        out.append(len(range(*slice(*[z.data for z in a.args]).indices(s[k]))))
                    elif all(z.data is None for z in a.args):
                        out.append(s[k])
                    else:
                        return None
                else:
                    return None
            elif a.op in ("counter", "relem"):
                pass
            else:
                t = self.shape(a, depth)
                if t is None:
                    return None
                if t == ():
                    pass
                elif adv:
                    return None
                else:
                    if self.boolish(a):
                        return None
                    out.extend(t)
                    adv = True
            k += 1
        return tuple(out) + tuple(s[k:])

    @staticmethod
    def boolish(n):
        return n.op in ("cmp", "not", "and", "or") or (n.op == "un" and n.data == "~") or \
            (n.op == "carr" and bool(n.data[1]) and isinstance(n.data[1][0], bool))

    ELEM = {"exp", "log", "sqrt", "sin", "cos", "tan", "abs", "asarray", "astype", "floor", "ceil", "real", "imag", "conj", "where",
            "clip", "minimum", "maximum", "expm1", "log1p", "asin", "acos", "atan", "atan2", "degrees", "radians", "isnan", "isfinite",
            "positive", "sign", "round", "square", "hypot", "zeros_like", "ones_like", "empty_like", "full_like", "copy", "array",
            "mod", "remainder", "less", "greater", "equal", "sort", "flip", "nan_to_num", "asanyarray",
            "tanh", "sinh", "cosh", "cbrt", "exp2", "log2", "log10", "power", "pow", "deg2rad", "rad2deg", "divide", "floor_divide", "fabs", "absolute", "true_divide",
            "multiply", "add", "subtract"} | NARROW

    def call_shape(self, n, depth):
        f, names = n.data
        ns, _, base = f.rpartition(".")
        kw = dict(zip(names, n.args))
        rule = getattr(self.cfg, "shape_rules", {}).get(f)
        if rule is not None:
            return rule(self, kw, depth)
        ew = getattr(self.cfg, "elementwise", {}).get(f)
        if ew is not None:
            r = ()
            for k, a in kw.items():
                if k in ew and r is not None:
                    s = self.shape(a, depth)
                    r = None if s is None else broadcast(r, s)
            return r
        if not (ns in ("xp", "np", "jnp", "uxpx", "math", "xpx") or ns.startswith(("xp.", "np."))):
            return None
        if base in ("zeros", "ones", "empty", "full"):
            return self.dims(kw.get("shape", n.args[0]))
        if base in self.ELEM:
            r = ()
            for k, a in kw.items():
                if k in ("dtype", "copy", "axis", "xp", "device", "fill_value", "decimals"):
                    continue
                if a.op == "const" and a.data is None or a.op in ("nsfn", "ext", "ns"):
                    continue
                s = self.shape(a, depth)
                if s is None:
                    return None
                r = broadcast(r, s)
                if r is None:
                    return None
                if base in ("asarray", "astype", "array", "zeros_like", "ones_like", "empty_like", "full_like", "copy", "sort", "flip"):
                    return s
            return r
        if base in ("eigvalsh", "det") and f.endswith("linalg." + base) and len(n.args) == 1:
            s = self.shape(n.args[0], depth)
            return s[:-1 if base == "eigvalsh" else -2] if s is not None and len(s) >= 2 else None
        if base == "pad" and len(n.args) > 1:
            s = self.shape(n.args[0], depth)
            w = self.dims(n.args[1])
            if s is None or w is None or len(s) != 1 or not all(isinstance(d, int) for d in (*s, *w)):
                return None
            return (s[0] + (w[0] + w[1] if len(w) == 2 else 2 * w[0]),)
        if base == "arange":
            v = [kw.get(k) for k in ("start", "stop", "step")]
            if all(a is None or a.op == "const" for a in v):
                v = [a.data for a in v if a is not None and a.data is not None]
                if all(isinstance(a, int) for a in v):
                    return (len(range(*v)),)
            return None
        if base == "linspace":
            k = kw.get("num")
            return (50,) if k is None else self.dims(k)
        if base == "matrix_transpose":
            s = self.shape(n.args[0], depth)
            return None if s is None or len(s) < 2 else s[:-2] + (s[-1], s[-2])
        if base == "take" and len(n.args) >= 2 and set(names[2:]) <= {"axis"}:
            s, t = self.shape(n.args[0], depth), self.shape(n.args[1], depth)
            ax = kw.get("axis")
            if s is None or t is None or ax is None and len(s) != 1 or ax is not None and (ax.op != "const" or not isinstance(ax.data, int)):
                return None
            a = 0 if ax is None else ax.data % len(s)
            return s[:a] + t + s[a + 1:]
        if base == "diagonal":
            s = self.shape(n.args[0], depth)
            ok = s is not None and len(n.args) == 1 and (len(s) == 2 or len(s) > 2 and f.endswith("linalg.diagonal")) and s[-1] == s[-2]
            return s[:-1] if ok else None
        if base == "matrix_norm":
            s = self.shape(n.args[0], depth)
            return None if s is None or len(n.args) > 1 else s[:-2]
        if base == "solve" and f.endswith("linalg.solve") and len(n.args) == 2:
            return self.shape(n.args[1], depth)
        if base in ("reshape",):
            d = self.dims(kw.get("shape", n.args[1] if len(n.args) > 1 else n.args[0]))
            s = self.shape(n.args[0], depth)
            if d is None:
                return None
            if -1 in d:
                if s is None or not all(isinstance(x, int) for x in (*s, *d)):
                    return s if d == (-1,) and s is not None and len(s) == 1 else None
                k = -math.prod(d)
                return tuple(math.prod(s) // k if x == -1 else x for x in d) if k else None
            return d
        if base in ("broadcast_to",):
            return self.dims(kw.get("shape", n.args[-1]))
        if base == "broadcast_arrays_item":
            r = ()
            for a in n.args:
                s = self.shape(a, depth)
                r = None if s is None or r is None else broadcast(r, s)
            return r
        if base in ("cumsum", "cumulative_sum", "cumprod"):
            s = self.shape(n.args[0], depth)
            ax, inc = kw.get("axis"), kw.get("include_initial")
            if s is None or inc is not None and inc.op != "const" or ax is not None and ax.op != "const":
                return None
            if ax is None or ax.data is None:
                if len(s) != 1:
                    return None
                k = 0
            else:
                k = ax.data % len(s)
            if inc is None or not inc.data:
                return s
            return s[:k] + (s[k] + 1,) + s[k + 1:] if isinstance(s[k], int) else None
        if base in ("sum", "prod", "max", "min", "any", "all", "mean", "std", "argmin", "argmax", "count_nonzero", "vecdot"):
            s = self.shape(n.args[0], depth)
            ax = kw.get("axis")
            if s is None:
                return None
            kd = kw.get("keepdims")
            if kd is not None and kd.op != "const":
                return None
            if kd is not None and kd.data:
                if ax is None or ax.op == "const" and ax.data is None:
                    return (1,) * len(s)
                if ax.op != "const" or not isinstance(ax.data, int) or not -len(s) <= ax.data < len(s):
                    return None
                a = ax.data % len(s)
                return s[:a] + (1,) + s[a + 1:]
            if ax is None or (ax.op == "const" and ax.data is None):
                return s[:-1] if base == "vecdot" else ()
            if ax.op == "const" and isinstance(ax.data, int):
                s = list(s)
                try:
                    del s[ax.data]
                except IndexError:
                    return None
                return tuple(s)
            return None
        if base in ("stack", "concat"):
            a = n.args[0]
            a = self.content(a) if a.op == "ref" else a
            if a is None or a.op not in ("tuple", "list") or any(x.op == "star" for x in a.args):
                return None
            xs = [self.shape(x, depth) for x in a.args]
            ax = kw.get("axis")
            ax = 0 if ax is None else ax.data if ax.op == "const" else None
            if not xs or any(x is None for x in xs) or not isinstance(ax, int):
                return None
            if base == "stack":
                k = ax if ax >= 0 else len(xs[0]) + 1 + ax
                return xs[0][:k] + (len(xs),) + xs[0][k:]
            k = ax if ax >= 0 else len(xs[0]) + ax
            if not all(0 <= k < len(x) for x in xs):
                return None
            ds = [x[k] for x in xs]
            if not all(isinstance(d, int) for d in ds):
                return None
            return xs[0][:k] + (sum(ds),) + xs[0][k + 1:]
        if base == "eye":
            d = self.dims(n.args[0])
            return None if d is None else (d[0], d[0])
        if base == "diff" and not set(names) - {"x", "a", "0", "axis", "xp", "n"}:
            s = self.shape(n.args[0], depth)
            ax, k = kw.get("axis"), kw.get("n")
            if s and (ax is None or ax.op == "const" and ax.data in (-1, len(s) - 1)) and (k is None or k.op == "const" and k.data == 1) and isinstance(s[-1], int):
                return s[:-1] + (max(0, s[-1] - 1),)
            return None
        if base == "repeat":
            m = self.repeats(n, depth)
            return None if m is None else (len(m),)
        return None

    def repeats(self, n, depth=0):
        """Positions of the elements of a one-dimensional array that is repeated known numbers of times."""
        kw = dict(zip(n.data[1], n.args))
        s = self.shape(n.args[0], depth)
        r = self.as_carr(kw["repeats"]) if "repeats" in kw else self.as_carr(n.args[1]) if len(n.args) > 1 else None
        ax = kw.get("axis")
        if s is None or r is None or len(s) != 1 or not isinstance(s[0], int) or len(r[0]) > 1 or \
                (ax is not None and not (ax.op == "const" and ax.data in (None, 0))):
            return None
        k = list(r[1]) * (s[0] if len(r[1]) == 1 else 1)
        return [j for j, m in enumerate(k) for _ in range(m)] if len(k) == s[0] and all(isinstance(m, int) for m in k) else None

    def dimnode(self, d):
        return self.g.const(d) if isinstance(d, int) else d

    def getattr(self, b, name):
        if name in ("shape", "size", "ndim") and b.op not in ("mod", "ns", "ext", "cls", "ref"):
            s = self.shape(b)
            if s is not None:
                if name == "ndim":
                    return self.g.const(len(s))
                if name == "shape":
                    return self.g.tuple([self.dimnode(d) for d in s])
                if all(isinstance(d, int) for d in s):
                    return self.g.const(math.prod(s))
                if len(s) == 1:
                    return self.dimnode(s[0])
        if b.op == "tuple" and len(b.args) == 4 and name in ("values", "indices", "inverse_indices", "counts"):
            return b.args[("values", "indices", "inverse_indices", "counts").index(name)]
        if b.op == "carr" and name in ("T", "mT"):
            s, d = b.data
            if len(s) == 1:
                return b
            if len(s) == 2:
                return self.carrf((s[1], s[0]), [d[i * s[1] + j] for j in range(s[1]) for i in range(s[0])])
        return super().getattr(b, name)

    def b_len(self, args, kw, e):
        x = args[0]
        c = self.concrete_items(self.iter_value(x)) if x.op in ("carr", "gen", "call", "comp", "listof", "global") else None
        if c is not None:
            return self.g.const(len(c))
        if x.op not in ("ref", "tuple", "list", "dict"):
            s = self.shape(x)
            if s:
                return self.dimnode(s[0])
        return super().b_len(args, kw, e)

    # ------------------------------------------------------------ calls
    def carr_call(self, base, args, kw):
        """Value of a function of constant arrays, or None."""
        C = self.as_carr
        vals = [*args, *kw.values()]
        ints = all(a.op == "const" and (a.data is None or isinstance(a.data, int)) for a in vals if a.op not in ("nsfn", "ns", "ext"))
        if base == "arange" and ints:
            pos = [a.data for a in args] + [kw[k].data for k in ("start", "stop", "step") if k in kw]
            pos = [p for p in pos if p is not None]
            r = range(*pos)
            return self.carr(list(r)) if len(r) <= LIMIT else None
        if base in ("tril_indices", "triu_indices") and ints and args:
            n = args[0].data
            k = (args[1] if len(args) > 1 else kw.get("k", self.g.const(0))).data or 0
            m = (args[2] if len(args) > 2 else kw.get("m", self.g.const(None))).data
            m = n if m is None else m
            keep = [(i, j) for i in range(n) for j in range(m) if (j <= i + k if base[:4] == "tril" else j >= i + k)]
            return self.g.tuple([self.carr([i for i, _ in keep]), self.carr([j for _, j in keep])])
        if not args:
            return None
        if base in ("round", "rint", "floor", "ceil", "trunc") and len(args) == 1 and not kw:
            v = number(args[0])
            if v is not None:
                return self.g.const(float({"round": round, "rint": round}.get(base, getattr(math, base, None))(v)))
        x = C(args[0])
        ax = args[1] if len(args) > 1 and base in ("sum", "any", "all", "max", "min", "cumsum", "flip", "concat", "stack") else kw.get("axis")
        ax = None if ax is None or ax.op != "const" else ax.data
        if base in ("asarray", "array", "astype", "asanyarray", "copy") and x is not None and args[0].op == "carr":
            return args[0] if not any(a.op == "nsfn" and "float" in str(a.data) or a.op == "ext" and "float" in str(a.data) for a in vals) \
                else self.carrf(x[0], [float(v) for v in x[1]])
        if base in ("stack", "concat", "hstack", "column_stack") and args[0].op in ("tuple", "list", "ref"):
            a = self.content(args[0]) if args[0].op == "ref" else args[0]
            if a is None or a.op not in ("tuple", "list") or not a.args:
                return None
            xs = [C(y) for y in a.args]
            if any(y is None for y in xs) or not any(y.op == "carr" for y in a.args):
                return None
            if base == "column_stack":
                base, ax = "stack", 1
            if base == "stack":
                if any(y[0] != xs[0][0] for y in xs):
                    return None
                s = xs[0][0]
                if ax in (None, 0):
                    return self.carrf((len(xs),) + s, [v for y in xs for v in y[1]])
                if ax in (-1, len(s)):
                    return self.carrf(s + (len(xs),), [y[1][k] for k in range(math.prod(s)) for y in xs])
                return None
            if all(len(y[0]) == 1 for y in xs):
                return self.carrf((sum(y[0][0] for y in xs),), [v for y in xs for v in y[1]])
            if ax in (None, 0) and all(y[0][1:] == xs[0][0][1:] for y in xs):
                return self.carrf((sum(y[0][0] for y in xs),) + xs[0][0][1:], [v for y in xs for v in y[1]])
            return None
        if x is None or args[0].op != "carr" and not (x[0] == () and base in ("sum", "max", "min", "prod", "any", "all", "count_nonzero",
                                                                                  "broadcast_to")):
            return None
        s, d = x
        if any(k in kw and not (kw[k].op == "const" and kw[k].data in (None, False)) for k in ("keepdims", "where", "initial", "out", "prepend", "append", "sorter",
                                                                                               "decimals")):
            return None
        if base == "reshape":
            t = self.dims(args[1] if len(args) > 1 else kw["shape"])
            if t is not None and all(isinstance(k, int) for k in t):
                if -1 in t:
                    k = -math.prod(t)
                    t = tuple(len(d) // k if y == -1 else y for y in t)
                return self.carrf(t, d)
        if ax is None:
            if base in ("sum", "prod") and d:
                return self.g.const(sum(d) if base == "sum" else math.prod(d))
            if base in ("max", "min", "amax", "amin") and d:
                return self.g.const(max(d) if base.endswith("max") else min(d))
            if base in ("any", "all"):
                return self.g.const(any(d) if base == "any" else all(d))
            if base == "count_nonzero":
                return self.g.const(sum(1 for v in d if v))
        if len(s) == 1 and ax in (None, 0, -1):
            if base in ("cumsum", "cumulative_sum"):
                r = list(itertools.accumulate(d))
                inc = kw.get("include_initial")
                return self.carr(([0] if inc is not None and inc.op == "const" and inc.data else []) + r)
            if base == "flip":
                return self.carr(list(reversed(d)))
            if base in ("sort", "argsort"):
                down = kw.get("descending")
                if down is not None and down.op != "const" or len(args) > 2:
                    return None
                down = bool(down is not None and down.data)
                # equal elements keep their order either way
                p = sorted(range(len(d)), key=lambda k: -d[k] if down else d[k])
                return self.carr(p if base == "argsort" else [d[k] for k in p])
            if base in ("nonzero", "flatnonzero"):
                r = self.carr([k for k, v in enumerate(d) if v])
                return self.g.tuple([r]) if base == "nonzero" else r
            if base == "diff" and len(args) == 1 and "n" not in kw:
                return self.carr([b - a for a, b in zip(d, d[1:])])
            if base == "unique_values":
                return self.carr(sorted(set(d)))
        if base == "unique_all":
            vals = sorted(set(d))
            return self.g.tuple([self.carr(vals), self.carr([d.index(v) for v in vals]),
                                 self.carrf(s, [vals.index(v) for v in d]), self.carr([d.count(v) for v in vals])])
        if base == "unique_inverse":
            vals = sorted(set(d))
            return self.g.tuple([self.carr(vals), self.carrf(s, [vals.index(v) for v in d])])
        if base == "unique_counts":
            vals = sorted(set(d))
            return self.g.tuple([self.carr(vals), self.carr([d.count(v) for v in vals])])
        if base == "repeat" and len(s) == 1 and ax in (None, 0):
            r = C(args[1] if len(args) > 1 else kw["repeats"])
            if r is None:
                return None
            k = list(r[1]) * (len(d) if r[0] == () else 1)
            if len(k) != len(d):
                self.error("ValueError", f"repeat of {len(d)} elements by {len(k)} numbers")
            return self.carr([v for v, m in zip(d, k) for _ in range(m)]) if len(k) == len(d) else None
        if base == "searchsorted" and len(s) == 1:
            import bisect
            v = C(args[1] if len(args) > 1 else kw.get("x2", kw.get("v")))
            side = args[2] if len(args) > 2 else kw.get("side")
            if side is not None and side.op != "const" or len(args) > 3:
                return None
            side = "left" if side is None else side.data
            if v is None:
                return None
            f = bisect.bisect_left if side == "left" else bisect.bisect_right
            return self.carrf(v[0], [f(d, x) for x in v[1]])
        if base == "broadcast_to":
            t = self.dims(args[1] if len(args) > 1 else kw["shape"])
            if t is not None and all(isinstance(k, int) for k in t) and broadcast(s, t) == tuple(t):
                return self.carrf(t, expand(s, d, t)) if math.prod(t) <= LIMIT else None
        if base == "where" and len(args) == 3:
            xs = [C(a) for a in args]
            if None not in xs:
                t = broadcast(broadcast(xs[0][0], xs[1][0]), xs[2][0])
                return self.carrf(t, [b if a else z for a, b, z in zip(*[expand(*x, t) for x in xs])])
        if base in MATH1 and len(args) == 1 and not kw.keys() - {"dtype"}:
            f = {"abs": abs, "sign": lambda v: (v > 0) - (v < 0), "square": lambda v: v * v, "negative": lambda v: -v,
                 "round": round}.get(base) or getattr(math, base)
            try:
                return self.carrf(s, [f(v) for v in d])
            except Exception:
                return None
        return None

    def broadcasts(self, name, args):
        """broadcast_arrays and broadcast_shapes of known shapes."""
        if name == "broadcast_shapes":
            ts = [self.dims(a) for a in args]
            if any(t is None or not all(isinstance(k, int) for k in t) for t in ts):
                return None
        else:
            ts = [self.shape(a) for a in args]
        r = ()
        for t in ts:
            r = None if r is None or t is None else broadcast(r, t)
        if r is None:
            return None
        if name == "broadcast_shapes":
            return self.g.tuple([self.g.const(k) for k in r])
        if not all(isinstance(k, int) for k in r) or not any(self.as_carr(a) is not None for a in args):
            return None
        out = []
        for a in args:
            c = self.as_carr(a)
            if c is not None and math.prod(r) <= LIMIT:
                out.append(self.carrf(r, expand(*c, r)))
            else:
                out.append(self.call_node("xp.broadcast_to", [a, self.g.tuple([self.g.const(k) for k in r])], []))
        return self.g.tuple(out)

    def call_ns(self, ns, name, args, kwargs):
        kw = {k: v for k, v in kwargs if k}
        if name in ("broadcast_arrays", "broadcast_shapes") and args and not any(a.op == "star" for a in args):
            r = self.broadcasts(name, [self.freeze(a) for a in args])
            if r is not None:
                return r
        if name == "shape" and len(args) == 1 and not kwargs:
            s = self.shape(self.freeze(args[0]))
            if s is not None and all(isinstance(k, int) for k in s):
                return self.g.tuple([self.g.const(k) for k in s])
        if not any(a.op == "star" for a in args) and len(kw) == len(kwargs):
            self.misfit(name, args, kw)
            try:
                r = self.carr_call(name, list(args), {k: v for k, v in kw.items() if k != "dtype"})
            except Exception:
                r = None
            if r is not None:
                return r
        return self.narrowed(name, args, kw, super().call_ns(ns, name, args, kwargs))

    def narrowed(self, name, args, kw, r):
        """Conversions to fewer digits change numbers."""
        if name not in ("asarray", "array", "asanyarray", "astype") or not args:
            return r
        d = args[1] if len(args) > 1 else kw.get("dtype")
        d = d.data[1] if d is not None and d.op == "nsfn" else d.data.rpartition(".")[2] if d is not None and d.op == "ext" else d.data if d is not None and d.op == "const" else None
        x = self.freeze(args[0])
        if d not in NARROW or x.op in ("const", "carr") or self.boolish(x):
            return r
        return self.g.mk("call", (x,), (f"xp.{d}", ("x",)))

    def misfit(self, name, args, kw):
        """Joining or reshaping arrays of known shapes that do not fit."""
        def known(x):
            if x.op == "ref":
                return None
            s = self.shape(x)
            return s if s is not None and all(isinstance(d, int) for d in s) else None
        if name in ("concat", "concatenate", "stack") and args and set(kw) <= {"axis"} and len(args) <= 2:
            a = self.freeze(args[0])
            a = self.content(a) if a.op == "ref" else a
            ax = args[1] if len(args) > 1 else kw.get("axis")
            ax = 0 if ax is None else ax.data if ax.op == "const" else None
            if a is None or a.op not in ("tuple", "list") or not a.args or not isinstance(ax, int) or isinstance(ax, bool):
                return
            xs = [known(x) for x in a.args]
            if any(x is None for x in xs):
                return
            n = len(xs[0]) + (name == "stack")
            if any(len(x) != len(xs[0]) for x in xs):
                self.error("ValueError", f"{name} of arrays of shapes {xs}")
            elif not -n <= ax < n:
                self.error("IndexError", f"{name} of arrays of shapes {xs} along axis {ax}")
            elif name == "stack" and len(set(xs)) > 1 or name != "stack" and len({x[:ax % n] + x[ax % n + 1:] for x in xs}) > 1:
                self.error("ValueError", f"{name} of arrays of shapes {xs} along axis {ax}")
        elif name == "reshape" and args and len(args) + len(kw) == 2 and set(kw) <= {"shape"}:
            s, d = known(self.freeze(args[0])), self.dims(args[1] if len(args) > 1 else kw["shape"])
            if s is None or d is None or not all(isinstance(k, int) for k in d):
                return
            m, k = math.prod(s), math.prod(x for x in d if x != -1)
            if -1 not in d and k != m or d.count(-1) == 1 and k and m % k:
                self.error("ValueError", f"shape {s} does not become {d}")

    def b_isinstance(self, args, kw, e):
        r = super().b_isinstance(args, kw, e)
        if r is None and len(args) == 2 and args[1].op == "ext":
            kind = {"builtins.int": int, "builtins.float": float, "builtins.complex": complex, "builtins.bool": bool, "builtins.str": str, "builtins.tuple": tuple,
                    "builtins.list": list, "builtins.dict": dict}.get(args[1].data)
            x = args[0]
            if kind is not None and x.op == "tuple":
                return self.g.const(kind is tuple)
            if kind is not None and x.op == "const" and (x.data is None or isinstance(x.data, str)):
                return self.g.const(isinstance(x.data, kind))
        return r

    def b_callable(self, args, kw, e):
        r = super().b_callable(args, kw, e)
        return self.g.const(False) if r is None and (args[0].op in ("const", "tuple", "carr")) else r

    def place(self, n):
        """A number that gives the place of a value in the order, or None."""
        n = self.freeze(n)
        return n.data if n.op == "const" and isnum(n.data) and n.data == n.data else None

    def by_key(self, base, seq, kw, e):
        xs = self.concrete_items(self.iter_value(seq))
        if not xs:
            return None
        back = kw.get("reverse")
        if back is not None and not (back.op == "const" and isinstance(back.data, bool)):
            return None
        key = kw.get("key")
        ks = []
        for x in xs:
            k = self.call(key, [x], [], e) if key is not None and not (key.op == "const" and key.data is None) else x
            k = [self.place(v) for v in k.args] if k.op == "tuple" else self.place(k)
            if k is None or isinstance(k, list) and None in k:
                return None
            ks.append(k)
        try:
            order = sorted(range(len(xs)), key=ks.__getitem__, reverse=back is not None and back.data)
            if base == "max":
                return xs[max(range(len(xs)), key=ks.__getitem__)]
        except TypeError:
            return None
        return self.mklist(self.g.tuple([xs[k] for k in order])) if base == "sorted" else xs[order[0]]

    def call_ext(self, fn, args, kwargs, e):
        base = fn.rpartition(".")[2]
        if fn.startswith(("np.", "numpy.")) and not fn.startswith("np.random"):
            try:
                r = self.carr_call(base, list(args), {k: v for k, v in kwargs if k})
            except Exception:
                r = None
            if r is not None:
                return r
            return self.narrowed(base, args, dict(kwargs), super().call_ext(fn, args, kwargs, e))
        if fn in ("builtins.int", "builtins.float", "builtins.round", "builtins.divmod", "math.isqrt", "builtins.bool",
                  "operator.index", "builtins.complex") and args and all(a.op == "const" and isnum(a.data) for a in args) and not kwargs:
            try:
                v = {"int": int, "float": float, "round": round, "divmod": divmod, "isqrt": math.isqrt, "bool": bool, "index": int,
                     "complex": complex}[base](*[a.data for a in args])
                return self.g.tuple([self.g.const(z) for z in v]) if isinstance(v, tuple) else self.g.const(v)
            except Exception:
                pass
        if fn in ("builtins.any", "builtins.all", "builtins.sorted", "builtins.sum", "builtins.max", "builtins.min") and len(args) == 1:
            c = self.concrete_items(self.iter_value(args[0]))
            if c is not None and all(a.op == "const" for a in c) and (c or fn.endswith(("any", "all", "sorted"))) and not [k for k, _ in kwargs if k != "default"]:
                vs = [a.data for a in c]
                try:
                    if fn.endswith("sorted"):
                        return self.mklist(self.g.tuple([self.g.const(v) for v in sorted(vs)]))
                    return self.g.const({"any": any, "all": all, "sum": sum, "max": max, "min": min}[base](vs))
                except Exception:
                    pass
            if c is not None and not c:
                d = dict(kwargs).get("default")
                if d is not None and base in ("max", "min"):
                    return d
        if fn in ("builtins.sorted", "builtins.max", "builtins.min") and len(args) == 1 and dict(kwargs).keys() <= {"key", "reverse"} and kwargs:
            r = self.by_key(base, args[0], dict(kwargs), e)
            if r is not None:
                return r
        if fn == "itertools.chain.from_iterable" and len(args) == 1:
            c = self.concrete_items(self.iter_value(args[0]))
            if c is not None:
                cs = [self.concrete_items(self.iter_value(x)) for x in c]
                if all(x is not None for x in cs):
                    return self.g.tuple([y for x in cs for y in x])
        if fn == "builtins.reversed" and len(args) == 1:
            c = self.concrete_items(self.iter_value(args[0]))
            if c is not None:
                return self.g.tuple(list(reversed(c)))
        if fn == "builtins.filter" and len(args) == 2:
            c = self.concrete_items(self.iter_value(args[1]))
            if c is not None:
                ks = [self.g.truth(self.call(args[0], [x], [], e)) for x in c]
                if None not in ks:
                    return self.g.tuple([x for x, k in zip(c, ks) if k])
        return super().call_ext(fn, args, kwargs, e)

    def list_method(self, b, name, args, kwargs):
        c = self.content(b)
        if name == "index" and c is not None and c.op == "tuple" and args and self.constlike(args[0]) and all(self.constlike(x) for x in c.args):
            for k, x in enumerate(c.args):
                if x is args[0]:
                    return self.g.const(k)
        if name == "append" and c is not None and c.op == "tuple" and len(c.args) < LIMIT:
            self.hset(b.data, "$", self.g.tuple(c.args + (args[0],)))
            return self.g.const(None)
        if name == "reverse" and c is not None and c.op == "tuple":
            self.hset(b.data, "$", self.g.tuple(tuple(reversed(c.args))))
            return self.g.const(None)
        if name == "insert" and c is not None and c.op == "tuple" and len(args) == 2 and args[0].op == "const":
            xs = list(c.args)
            xs.insert(args[0].data, args[1])
            self.hset(b.data, "$", self.g.tuple(xs))
            return self.g.const(None)
        return super().list_method(b, name, args, kwargs)

    def call_method(self, b, name, args, kwargs, e):
        rule = getattr(self.cfg, "draw_rules", {}).get(name)
        if rule is not None and self.rngish(b):
            # one possible outcome of a draw
            r = rule(self, [self.freeze(x) for x in args], {k: self.freeze(v) for k, v in kwargs if k})
            if r is not None:
                return r
        if b.op == "carr":
            if name in ("tolist", "copy", "item", "astype"):
                if name == "tolist":
                    def mk(x):
                        return self.mklist(self.g.tuple([mk(y) for y in x])) if isinstance(x, list) else self.g.const(x)
                    return mk(nest(b.data[0], list(b.data[1])))
                if name == "item" and len(b.data[1]) == 1:
                    return self.g.const(b.data[1][0])
                if name in ("copy", "astype"):
                    return b
            try:
                r = self.carr_call(name, [b, *args], {k: v for k, v in kwargs if k})
            except Exception:
                r = None
            if r is not None:
                return r
        if b.op == "const" and isnum(b.data) and name in ("item", "__int__", "__index__"):
            return b
        if b.op == "tuple" and name == "index" and args and self.constlike(args[0]) and all(self.constlike(x) for x in b.args):
            for k, x in enumerate(b.args):
                if x is args[0]:
                    return self.g.const(k)
        return super().call_method(b, name, args, kwargs, e)

    def b_dict(self, args, kw, e):
        if args and not self.is_dict(args[0]):
            c = self.concrete_items(self.iter_value(args[0]))
            prs = None if c is None else [self.concrete_items(self.iter_value(x)) for x in c]
            if prs is not None and all(x is not None and len(x) == 2 and self.constlike(x[0]) for x in prs):
                d = {}
                for k, v in prs:
                    d[k.id] = (k, v)
                items = [z for kv in d.values() for z in kv] + [z for k, v in kw if k for z in (self.g.const(k), v)]
                oid = self.new_obj("dict")
                self.hset(oid, "$", self.g.mk("dict", tuple(items)))
                return self.ref(oid)
        return super().b_dict(args, kw, e)

    # a list that is iterated while it is built elsewhere keeps its snapshot semantics
    def b_list(self, args, kw, e):
        if args:
            c = self.concrete_items(self.iter_value(args[0])) if args[0].op != "set" else None
            if c is not None:
                return self.mklist(self.g.tuple(c))
        return super().b_list(args, kw, e)

    def b_tuple(self, args, kw, e):
        if args:
            c = self.concrete_items(self.iter_value(args[0])) if args[0].op != "set" else None
            if c is not None:
                return self.g.tuple(c)
        return super().b_tuple(args, kw, e)

    def _minmax(self, name, args, kw):
        if len(args) == 1:
            c = self.concrete_items(self.iter_value(args[0]))
            if c and len(c) == 1 and not kw:
                return c[0]
        return super()._minmax(name, args, kw)


def analyse(project, qual, config=None, bind=None, graph=None, cls=None):
    return _i.analyse(project, qual, config, bind, graph, cls=cls or Folding)


__all__ = ["Config", "Folding", "analyse"]
