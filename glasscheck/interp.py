"""Abstract interpreter: from source to a gated value-dependence graph.

Every public entry point is evaluated over *values as graph nodes*: calls to
functions of the package are expanded (also through closures, generators,
properties and constructors), the two sides of a branch are merged with gated
phi nodes, loops become mu nodes, and every effect (mutation, draw, raise,
warning, yield, external call, state write) is logged with its path condition.
No code of the package is executed and no concrete input is chosen.
"""

from __future__ import annotations

import ast
import builtins as _b
import math

from . import project as pj
from .ir import Graph, Node, show

BUILTINS = set(dir(_b))

IDENTITY_DECORATORS = {"numpy_fallback", "deprecated", "staticmethod", "classmethod", "contextmanager",
                       "property", "overload", "abstractmethod", "wraps", "runtime_checkable",
                       "dataclass", "override", "final", "no_type_check", "setter"}

MUT_METHODS = {"sort", "fill", "resize", "put", "partition", "itemset", "setfield", "setflags", "byteswap",
               "append", "extend", "pop", "remove", "clear", "insert", "reverse", "update", "setdefault",
               "popitem", "popleft", "appendleft", "rotate", "add", "discard", "move_to_end", "__setitem__",
               "__iadd__", "__imul__", "__isub__", "__itruediv__", "__delitem__", "__setattr__"}
# methods that exist on arrays with other, harmless meaning are decided by the receiver
DRAW_METHODS = {"random", "normal", "poisson", "standard_normal", "uniform", "multinomial", "integers", "choice",
                "shuffle", "permutation", "permuted", "exponential", "gamma", "beta", "binomial", "lognormal",
                "multivariate_normal", "standard_exponential", "rayleigh", "bytes", "triangular", "laplace",
                "standard_gamma", "geometric", "randint", "rand", "randn", "sample", "gauss", "random_sample"}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>"}
UNOPS = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
          ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

# canonical parameter names of external functions (after stripping the namespace)
SIG = {k: v.split() for k, v in {
    "sum": "x axis dtype keepdims", "mean": "x axis keepdims", "max": "x axis keepdims", "min": "x axis keepdims",
    "any": "x axis", "all": "x axis", "prod": "x axis", "std": "x axis", "var": "x axis",
    "where": "c a b", "linspace": "start stop num", "arange": "start stop step", "clip": "x min max",
    "concat": "arrays axis", "stack": "arrays axis", "take": "x indices axis", "repeat": "x repeats axis",
    "reshape": "x shape", "asarray": "obj dtype", "array": "obj dtype", "zeros": "shape dtype", "ones": "shape dtype",
    "empty": "shape dtype", "full": "shape fill_value dtype", "zeros_like": "x dtype", "ones_like": "x dtype",
    "empty_like": "x dtype", "full_like": "x fill_value dtype", "eye": "n m", "moveaxis": "x source destination",
    "expand_dims": "x axis", "squeeze": "x axis", "broadcast_to": "x shape", "searchsorted": "x1 x2 side",
    "cumulative_sum": "x axis dtype include_initial", "cumsum": "x axis", "diff": "x axis n", "argsort": "x axis",
    "sort": "x axis", "argmax": "x axis", "argmin": "x axis", "nonzero": "x", "count_nonzero": "x axis",
    "matmul": "a b", "vecdot": "a b axis", "matrix_transpose": "x", "hypot": "x y", "atan2": "y x",
    "real": "x", "imag": "x", "conj": "x", "abs": "x", "exp": "x", "expm1": "x", "log": "x", "log1p": "x",
    "sqrt": "x", "sin": "x", "cos": "x", "tan": "x", "asin": "x", "acos": "x", "atan": "x", "tanh": "x",
    "sinh": "x", "cosh": "x", "round": "x", "floor": "x", "ceil": "x", "trunc": "x", "sign": "x",
    "isnan": "x", "isfinite": "x", "isinf": "x", "square": "x", "nextafter": "x y", "maximum": "x y",
    "minimum": "x y", "astype": "x dtype", "unique_all": "x", "isdtype": "dtype kind", "finfo": "dtype",
    "interp": "x xp fp left right period", "trapezoid": "y x dx axis", "gradient": "f", "radians": "x",
    "degrees": "x", "deg2rad": "x", "rad2deg": "x", "einsum": "subscripts *", "tril_indices": "n k m",
    "ndindex": "shape", "linalg.eigh": "x", "linalg.eigvalsh": "x", "linalg.solve": "a b", "linalg.qr": "x",
    "linalg.diagonal": "x offset", "linalg.matrix_norm": "x", "linalg.lstsq": "a b rcond", "pad": "x pad_width",
    "union1d": "a b", "linalg_lstsq": "a b rcond", "fabs": "x", "apply_along_axis": "func func_inputs axis arr *",
    "permute_dims": "x axes", "flip": "x axis", "roll": "x shift axis", "tile": "x reps",
    "vectorize": "pyfunc otypes", "split": "x indices_or_sections axis", "savez": "file *", "load": "file",
}.items()}
RENAME = {"concatenate": "concat", "arctan2": "atan2", "arcsin": "asin", "arccos": "acos", "arctan": "atan",
          "absolute": "abs", "power": "pow", "conjugate": "conj", "array": "array", "deg2rad": "radians",
          "rad2deg": "degrees", "fabs": "fabs", "pow": "pow"}
UFUNC = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "pow": "**",
         "floor_divide": "//", "remainder": "%", "mod": "%", "matmul": "@",
         "bitwise_and": "&", "bitwise_or": "|", "logical_and": "&", "logical_or": "|"}
UCMP = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}


class Cut(Exception):
    """Control does not continue."""


class Budget(Exception):
    pass


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def clone(self):
        return State(dict(self.heap), self.pc)


class Event:
    __slots__ = ("kind", "node", "pc", "loc", "loops", "info", "stack", "locks", "exc", "seq")

    def __init__(self, kind, node, pc, loc, loops, info, stack, locks, exc, seq):
        self.kind, self.node, self.pc, self.loc, self.loops = kind, node, pc, loc, loops
        self.info, self.stack, self.locks, self.exc, self.seq = info, stack, locks, exc, seq

    def where(self):
        f, l, q = self.loc
        return f"{f}:{l} ({q})"

    def __repr__(self):
        return f"<{self.kind} {show(self.node, 3) if isinstance(self.node, Node) else self.node} at {self.where()}>"


class Loop:
    __slots__ = ("id", "kind", "iter", "cond", "loc", "mus", "exits", "body_pc", "func", "has_break", "heads")

    def __init__(self, id, kind, loc, func):
        self.id, self.kind, self.loc, self.func = id, kind, loc, func
        self.iter = None
        self.cond = None
        self.mus = {}
        self.exits = []
        self.has_break = False


class FnInfo:
    __slots__ = ("module", "cls", "ast", "qual", "parents", "decos", "is_gen", "defaults")


class Frame:
    __slots__ = ("oid", "fn", "parents", "returns", "yields", "globals_")

    def __init__(self, oid, fn, parents):
        self.oid, self.fn, self.parents = oid, fn, parents
        self.returns = []
        self.yields = []
        self.globals_ = set()


class Config:
    def __init__(self, primitives=(), opaque_classes=(), bind=None, notnull=(), backend=None, max_nodes=400000,
                 primitive_prefix=(), ns_type="xp", maxdepth=25, self_attrs=None):
        self.primitives = set(primitives)
        self.primitive_prefix = tuple(primitive_prefix)
        self.opaque_classes = set(opaque_classes)
        self.bind = dict(bind or {})
        self.notnull = set(notnull)
        self.backend = backend
        self.max_nodes = max_nodes
        self.maxdepth = maxdepth
        self.self_attrs = self_attrs


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def deco_names(fn):
    out = []
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else "?")
    return out


class Interp:
    def __init__(self, project, config=None, graph=None):
        self.p = project
        self.cfg = config or Config()
        self.g = graph or Graph()
        self.events = []
        self.loops = {}
        self.fns = {}          # key -> FnInfo
        self.closures = {}     # uid -> (FnInfo, parents)
        self.objs = {}         # oid -> info
        self.frames = []
        self.loopstack = []
        self.locks = []
        self.excdepth = 0
        self.state = State()
        self.oid = graph.last_oid if graph is not None else 0
        self.gaps = []
        self.called = {}       # functions of the package expanded -> count
        self.prim_called = {}
        self.ext_called = {}
        self.modcache = {}
        self.finals = []
        self.seq = 0
        self.loc = ("?", 0, "?")
        self.mod_eval = set()

    # ------------------------------------------------------------ utils
    def gap(self, what):
        self.gaps.append((what, self.loc))

    def setloc(self, node):
        if self.frames:
            fn = self.frames[-1].fn
            self.loc = (fn.module.rel, getattr(node, "lineno", 0), fn.qual.partition(":")[2])
            self.g.curloc = self.loc

    def event(self, kind, node, **info):
        self.seq += 1
        e = Event(kind, node, self.state.pc, self.loc, tuple(self.loopstack), info,
                  tuple(f.fn.qual for f in self.frames), tuple(self.locks), self.excdepth, self.seq)
        self.events.append(e)
        if len(self.g.nodes) > self.cfg.max_nodes:
            raise Budget("graph too large")
        return e

    def new_obj(self, kind, **info):
        self.oid += 1
        self.g.last_oid = self.oid
        self.objs[self.oid] = dict(kind=kind, loc=self.loc, **info)
        self.state.heap[self.oid] = {}
        return self.oid

    def ref(self, oid):
        return self.g.mk("ref", (), oid)

    def hget(self, oid, slot):
        return self.state.heap.get(oid, {}).get(slot)

    def hset(self, oid, slot, val):
        d = dict(self.state.heap.get(oid, {}))
        d[slot] = val
        self.state.heap[oid] = d

    def content(self, ref):
        return self.hget(ref.data, "$")

    def mklist(self, content, kind="list"):
        oid = self.new_obj(kind)
        self.hset(oid, "$", content)
        return self.ref(oid)

    def is_list(self, n):
        return n.op == "ref" and self.objs[n.data]["kind"] in ("list", "deque", "set")

    def is_dict(self, n):
        return n.op == "ref" and self.objs[n.data]["kind"] == "dict"

    def is_inst(self, n):
        return n.op == "ref" and self.objs[n.data]["kind"] == "inst"

    def is_gen(self, n):
        return n.op == "ref" and self.objs[n.data]["kind"] == "gen"

    def freeze(self, n, depth=0):
        """Replace mutable container references by a snapshot of their content."""
        if depth > 6:
            return n
        if n.op == "ref":
            k = self.objs[n.data]["kind"]
            if k in ("list", "deque", "set"):
                c = self.content(n)
                if c is None:
                    return n
                c = self.freeze(c, depth + 1)
                if c.op == "tuple":
                    return self.g.mk("list", c.args)
                return self.g.mk("listof", (c,))
            if k == "dict":
                c = self.content(n)
                return self.freeze(c, depth + 1) if c is not None else n
            return n
        if n.op in ("tuple", "list", "dict", "star", "listof"):
            a = tuple(self.freeze(x, depth + 1) for x in n.args)
            if a != n.args:
                return self.g.mk(n.op, a, n.data)
        if n.op == "phi" and any(x.op == "ref" for x in n.args[1:]):
            return self.g.phi(n.args[0], self.freeze(n.args[1], depth + 1), self.freeze(n.args[2], depth + 1))
        return n

    # -------------------------------------------------------- functions
    def fninfo(self, module, cls, fnast, qual=None):
        key = id(fnast)
        f = self.fns.get(key)
        if f is None:
            f = FnInfo()
            f.module, f.cls, f.ast = module, cls, fnast
            name = getattr(fnast, "name", "<lambda>")
            f.qual = qual or f"{module.name}:{cls.name + '.' if cls else ''}{name}"
            f.parents = ()
            f.decos = deco_names(fnast) if hasattr(fnast, "decorator_list") else []
            f.is_gen = not isinstance(fnast, ast.Lambda) and has_yield(fnast)
            f.defaults = None
            self.fns[key] = f
        return f

    def func_node(self, module, cls, fnast):
        f = self.fninfo(module, cls, fnast)
        n = self.g.mk("func", (), f.qual)
        if n.meta is None:
            n.meta = {"fn": f}
        return n

    # ---------------------------------------------------- entry running
    def run_entry(self, qual, bind=None):
        """Evaluate entry point module:func or module:Class.method."""
        r = self.p.find_func(qual)
        if r is None:
            raise pj.AnalysisBroken(f"entry point {qual} not found")
        module, cls, fnast = r
        f = self.fninfo(module, cls, fnast)
        bind = dict(self.cfg.bind, **(bind or {}))
        a = fnast.args
        params = a.posonlyargs + a.args
        frame_vals = {}
        root = Frame(self.new_obj("frame"), f, ())
        self.frames.append(root)
        self.setloc(fnast)
        ndef = len(a.defaults)
        for i, prm in enumerate(params):
            d = a.defaults[i - (len(params) - ndef)] if i >= len(params) - ndef else None
            if i == 0 and cls is not None and "staticmethod" not in f.decos:
                if "classmethod" in f.decos:
                    frame_vals[prm.arg] = self.g.mk("cls", (), f"{module.name}:{cls.name}")
                else:
                    frame_vals[prm.arg] = self.self_instance(module, cls, qual, init=(fnast.name == "__init__"))
                continue
            frame_vals[prm.arg] = self.param(qual, prm, d, bind)
        for prm, d in zip(a.kwonlyargs, a.kw_defaults):
            frame_vals[prm.arg] = self.param(qual, prm, d, bind)
        if a.vararg:
            frame_vals[a.vararg.arg] = bind.get(a.vararg.arg) or self.param(qual, a.vararg, None, bind)
        if a.kwarg:
            frame_vals[a.kwarg.arg] = self.param(qual, a.kwarg, None, bind)
        self.state.heap[root.oid] = dict(frame_vals)
        self.params = frame_vals
        self.frames.pop()
        res = self.exec_function(f, frame_vals, ())
        self.result = res
        return res

    def self_instance(self, module, cls, qual, init=False):
        oid = self.new_obj("inst", cls=f"{module.name}:{cls.name}", symbolic=not init, name="self")
        n = self.ref(oid)
        self.selfref = n
        return n

    def param(self, qual, prm, default, bind):
        if prm.arg in bind:
            v = bind[prm.arg]
            if isinstance(v, Node):
                return v
            if not (isinstance(v, str) and v == "*sym*"):
                return self.pyconst(v)
        if prm.annotation is not None and ast.unparse(prm.annotation).startswith("ModuleType") and prm.arg == "xp":
            if "None" not in ast.unparse(prm.annotation):
                return self.mkns("xp", (), prm.arg)
            if "xp" in self.cfg.notnull:
                return self.mkns("xp", (), prm.arg)
        n = self.g.mk("param", (), (qual, prm.arg))
        if n.meta is None:
            n.meta = {"ann": prm.annotation, "notnull": prm.arg in self.cfg.notnull, "default": default,
                      "name": prm.arg}
        return n

    def pyconst(self, v):
        if isinstance(v, (tuple, list)):
            return self.g.tuple([self.pyconst(x) for x in v])
        return self.g.const(v)

    def mkns(self, kind, args=(), tag=None):
        if self.cfg.backend and kind == "xp":
            pass
        return self.g.mk("ns", args, kind)

    def exec_function(self, f, vals, parents):
        """Run body with bound values; returns value node. Raises Cut if no path returns."""
        if len(self.frames) > self.cfg.maxdepth or sum(1 for fr in self.frames if fr.fn is f) > 3:
            self.gap(f"recursion or depth limit at {f.qual}")
            return self.g.unknown(f"rec:{f.qual}", tuple(v for v in vals.values() if isinstance(v, Node)))
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        oid = self.new_obj("frame")
        fr = Frame(oid, f, tuple(parents))
        self.state.heap[oid] = dict(vals)
        saved_loc = self.loc
        base_pc = self.state.pc
        self.frames.append(fr)
        saved_loops = self.loopstack
        self.loopstack = list(saved_loops)
        st0 = self.state
        try:
            if isinstance(f.ast, ast.Lambda):
                v = self.ev(f.ast.body)
                return v
            try:
                self.block(f.ast.body)
                fr.returns.append((self.state.pc, self.g.const(None), self.state))
            except Cut:
                pass
            if not fr.returns:
                raise Cut("no return")
            v, st = self.merge_exits(fr.returns, base_pc)
            self.state = st
            if f.is_gen:
                return self.gen_result(fr)
            return v
        finally:
            self.frames.pop()
            self.loopstack = saved_loops
            self.loc = saved_loc
            self.g.curloc = saved_loc

    def gen_result(self, fr):
        ys = [y for (y, _pc, _l) in fr.yields]
        return self.g.mk("gen", tuple(self.freeze(y) for y in ys), None)

    # ------------------------------------------------------------ merge
    def conj(self, rel):
        n = None
        for c, pol in rel:
            x = c if pol else self.g.neg(c)
            n = x if n is None else self.g.mk("and", (n, x))
        return n if n is not None else self.g.const(True)

    def merge_exits(self, exits, base_pc):
        if len(exits) == 1:
            pc, v, st = exits[0]
            return v, State(st.heap, pc)
        return self._merge(exits, len(base_pc), base_pc)

    def _merge(self, exits, k, base_pc):
        if len(exits) == 1:
            pc, v, st = exits[0]
            return v, State(st.heap, pc)
        firsts = [e[0][k] if len(e[0]) > k else None for e in exits]
        c0 = firsts[0]
        if c0 is not None and all(x is not None and x[0] is c0[0] for x in firsts):
            t = [e for e, x in zip(exits, firsts) if x[1]]
            f = [e for e, x in zip(exits, firsts) if not x[1]]
            if not t or not f:
                return self._merge(exits, k + 1, base_pc)
            tv, ts = self._merge(t, k + 1, base_pc)
            fv, fs = self._merge(f, k + 1, base_pc)
            return self.join2(c0[0], tv, ts, fv, fs, k)
        head, rest = exits[0], exits[1:]
        c = self.conj(head[0][k:])
        rv, rs = self._merge(rest, k, base_pc)
        t = self.g.truth(c)
        if t is not None:
            c = self.g.mk("exit", (), (self.g.uid(),))
        return self.join2(c, head[1], State(head[2].heap, head[0]), rv, rs, k)

    def join2(self, c, av, a, bv, b, k=None):
        st = self.join_states(c, a, b, k)
        return self.mkphi(c, av, bv), st

    def mkphi(self, c, a, b):
        if a is b:
            return a
        if a.op == "ns" and b.op == "ns":
            return a if a.data == b.data else self.g.mk("ns", (), "xp")
        if (a.op == "ns" and b.op == "param") or (b.op == "ns" and a.op == "param"):
            pn = b if b.op == "param" else a
            if pn.data[1] == "xp":
                return self.g.mk("ns", (), "xp")
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return self.g.tuple([self.mkphi(c, x, y) for x, y in zip(a.args, b.args)])
        return self.g.phi(c, a, b)

    def join_states(self, c, a, b, k=None):
        heap = {}
        for oid in a.heap.keys() | b.heap.keys():
            da, db = a.heap.get(oid), b.heap.get(oid)
            if da is db or db is None:
                heap[oid] = da
            elif da is None:
                heap[oid] = db
            else:
                d = {}
                for s in list(da) + [x for x in db if x not in da]:
                    va, vb = da.get(s), db.get(s)
                    if va is vb:
                        d[s] = va
                    elif va is None or vb is None:
                        # defined on one side only: keep it
                        if self.objs[oid].get("symbolic") or self.objs[oid]["kind"] == "inst":
                            base = self.g.mk("attr0", (self.ref(oid),), s)
                            d[s] = self.mkphi(c, va if va is not None else base, vb if vb is not None else base)
                        else:
                            d[s] = va if va is not None else vb
                    elif s == "$" and va.op == "tuple" and vb.op == "tuple":
                        d[s] = self.g.phi(c, va, vb)
                    else:
                        d[s] = self.mkphi(c, va, vb)
                heap[oid] = d
        # path condition: common prefix, plus what is known of the rest
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] == b.pc[i]:
            i += 1
        pc = a.pc[:i]
        ra, rb = a.pc[i:], b.pc[i:]
        if ra and rb and ra[0][0] is rb[0][0] and ra[0][1] != rb[0][1]:
            if len(ra) == 1 and len(rb) == 1:
                pass
            else:
                cond, pol = ra[0]
                ca = self.conj(ra[1:]) if len(ra) > 1 else self.g.const(True)
                cb = self.conj(rb[1:]) if len(rb) > 1 else self.g.const(True)
                # cond -> ca and not cond -> cb
                t = cond if pol else self.g.neg(cond)
                if self.g.truth(cb) is True:
                    pc = pc + ((self.g.mk("and", (t, self.neg_conj(ca))), False),)
                elif self.g.truth(ca) is True:
                    pc = pc + ((self.g.mk("and", (self.g.neg(t), self.neg_conj(cb))), False),)
        else:
            # facts common to both sides survive
            setb = set(rb)
            pc = pc + tuple(x for x in ra if x in setb)
        return State(heap, pc)

    def neg_conj(self, c):
        return self.g.neg(c)

    # ------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        self.setloc(st)
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.gap(f"statement {type(st).__name__}")
            for sub in ast.iter_child_nodes(st):
                if isinstance(sub, ast.expr):
                    self.ev(sub)
            return
        m(st)

    def st_Pass(self, st): pass
    def st_Expr(self, st): self.ev(st.value)

    def st_Import(self, st):
        for a in st.names:
            self.event("import", None, module=a.name)
            fr = self.frames[-1].oid
            if a.asname:
                self.hset(fr, a.asname, self.modnode(a.name))
            else:
                self.hset(fr, a.name.split(".")[0], self.modnode(a.name.split(".")[0]))

    def st_ImportFrom(self, st):
        fr = self.frames[-1].oid
        m = self.frames[-1].fn.module
        base = st.module or ""
        if st.level:
            p = m.pkg().split(".")
            p = p[: len(p) - (st.level - 1)]
            base = ".".join(p + ([base] if base else []))
        for a in st.names:
            self.event("import", None, module=base, name=a.name)
            if base in self.p.modules:
                v = self.global_value(base, a.name)
            else:
                v = self.extnode(f"{base}.{a.name}")
            self.hset(fr, a.asname or a.name, v if v is not None else self.g.mk("ext", (), f"{base}.{a.name}"))

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def st_AugAssign(self, st):
        op = BINOPS[type(st.op)]
        t = st.target
        old = self.ev(t)
        val = self.ev(st.value)
        self.setloc(st)
        if self.is_list(old) and op in ("+", "|", "&", "-"):
            self.list_extend(old, val)
            return
        if old.op not in ("const", "tuple", "fstr"):
            self.event("mutate", old, how="augassign", op=op, target=ast.unparse(t))
        new = self.binop(op, old, val)
        self.assign(t, new, aug=True)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev(t.slice)
                if b.op == "ref" and self.objs[b.data]["kind"] in ("list", "dict", "deque", "set"):
                    self.hset(b.data, "$", self.g.mk("update", (self.content(b), i), "del"))
                else:
                    self.event("mutate", b, how="del item", op="del", target=ast.unparse(t))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.event("mutate", b, how="del attribute", op="del", target=ast.unparse(t))
            elif isinstance(t, ast.Name):
                d = dict(self.state.heap[self.frames[-1].oid])
                d.pop(t.id, None)
                self.state.heap[self.frames[-1].oid] = d

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else self.g.const(None)
        self.event("return", v, frame=self.frames[-1].oid)
        self.frames[-1].returns.append((self.state.pc, v, self.state.clone()))
        raise Cut

    def st_Raise(self, st):
        name = None
        exc = self.g.const(None)
        if st.exc is not None:
            e = st.exc
            f = e.func if isinstance(e, ast.Call) else e
            name = ast.unparse(f)
            exc = self.ev(e)
        self.event("raise", exc, exc=name)
        raise Cut

    def st_Assert(self, st):
        c = self.ev(st.test)
        self.event("assert", c)
        self.assume(c, True)

    def st_Global(self, st):
        self.frames[-1].globals_.update(st.names)

    def st_Nonlocal(self, st):
        pass

    def st_FunctionDef(self, st):
        fr = self.frames[-1]
        f = self.fninfo(fr.fn.module, None, st, qual=f"{fr.fn.qual}.{st.name}")
        uid = self.g.uid()
        defaults = [self.ev(d) for d in st.args.defaults]
        kwd = [self.ev(d) if d is not None else None for d in st.args.kw_defaults]
        self.closures[uid] = (f, (fr.oid,) + fr.parents, defaults, kwd)
        v = self.g.mk("closure", (), uid)
        for d in st.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            nm = nm.attr if isinstance(nm, ast.Attribute) else nm.id if isinstance(nm, ast.Name) else "?"
            if nm not in IDENTITY_DECORATORS:
                v = self.call(self.ev(d), [v], [], st)
        self.hset(fr.oid, st.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, st):
        self.hset(self.frames[-1].oid, st.name, self.g.opaque("local class"))
        self.gap("local class")

    def assume(self, c, pol):
        t = self.g.truth(c)
        if t is not None:
            if t != pol:
                raise Cut
            return
        if c.op == "not":
            return self.assume(c.args[0], not pol)
        if c.op == "and" and pol:
            for x in c.args:
                self.assume(x, True)
            return
        if c.op == "or" and not pol:
            for x in c.args:
                self.assume(x, False)
            return
        for (pcn, p) in self.state.pc:
            if pcn is c:
                if p != pol:
                    raise Cut
                return
        self.state.pc = self.state.pc + ((c, pol),)

    def known(self, c):
        t = self.g.truth(c)
        if t is not None:
            return t
        neg = False
        while c.op == "not":
            c = c.args[0]
            neg = not neg
        for (n, p) in self.state.pc:
            if n is c:
                return p != neg
            if not p and n.op == "and" and c in n.args:
                pass
        return None

    def fork(self, c, then, els):
        """Run two continuations under a condition and merge. Returns merged value."""
        t = self.known(c)
        if t is True:
            return then()
        if t is False:
            return els()
        base = self.state
        out = []
        for pol, fn in ((True, then), (False, els)):
            self.state = base.clone()
            try:
                self.assume(c, pol)
                v = fn()
                out.append((pol, v, self.state))
            except Cut:
                pass
        if not out:
            self.state = base
            raise Cut
        if len(out) == 1:
            self.state = out[0][2]
            return out[0][1]
        cc = c
        v = None
        a, b = out[0], out[1]
        if a[1] is not None or b[1] is not None:
            v = self.mkphi(cc, a[1], b[1])
        self.state = self.join_states(cc, a[2], b[2])
        return v

    def st_If(self, st):
        if pj.is_type_checking(st.test):
            self.block(st.orelse)
            return
        c = self.cond(st.test)

        def th():
            self.block(st.body)

        def el():
            self.block(st.orelse)
        self.fork(c, th, el)

    def st_Match(self, st):
        subj = self.ev(st.subject)

        def go(i):
            if i >= len(st.cases):
                return None
            case = st.cases[i]
            pat = case.pattern
            if isinstance(pat, ast.MatchValue):
                c = self.g.cmp("==", subj, self.ev(pat.value))
            elif isinstance(pat, ast.MatchSingleton):
                c = self.g.cmp("is", subj, self.g.const(pat.value))
            elif isinstance(pat, ast.MatchAs) and pat.pattern is None:
                if pat.name:
                    self.hset(self.frames[-1].oid, pat.name, subj)
                c = self.g.const(True)
            elif isinstance(pat, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in pat.patterns):
                c = None
                for q in pat.patterns:
                    x = self.g.cmp("==", subj, self.ev(q.value))
                    c = x if c is None else self.mkor(c, x)
            else:
                self.gap("match pattern")
                c = self.g.mk("match", (subj,), (st.lineno, i))
            if case.guard is not None:
                c = self.mkand(c, self.cond(case.guard))
            return self.fork(c, lambda: self.block(case.body), lambda: go(i + 1))
        go(0)

    def mkand(self, a, b):
        t = self.g.truth(a)
        if t is True: return b
        if t is False: return a
        t = self.g.truth(b)
        if t is True: return a
        if t is False: return b
        if a is b: return a
        return self.g.mk("and", (a, b))

    def mkor(self, a, b):
        t = self.g.truth(a)
        if t is True: return a
        if t is False: return b
        t = self.g.truth(b)
        if t is True: return b
        if t is False: return a
        if a is b: return a
        return self.g.mk("or", (a, b))

    # ------------------------------------------------------------ loops
    def st_For(self, st):
        it = self.ev(st.iter)
        it = self.iter_value(it)
        conc = self.concrete_items(it)
        if conc is not None:
            self.unroll(st, conc)
            return
        self.symloop(st, it)

    st_AsyncFor = st_For

    def concrete_items(self, it, limit=16):
        if it.op in ("tuple", "list") and len(it.args) <= limit and not any(a.op == "star" for a in it.args):
            return list(it.args)
        if it.op == "call":
            f, names = it.data
            if f == "builtins.range" and all(a.op == "const" and isinstance(a.data, int) for a in it.args):
                try:
                    r = range(*[a.data for a in it.args])
                except Exception:
                    return None
                if len(r) <= 8:
                    return [self.g.const(i) for i in r]
            if f == "builtins.enumerate":
                c = self.concrete_items(self.iter_value(it.args[0]), limit)
                if c is not None:
                    s = it.args[1] if len(it.args) > 1 else self.g.const(0)
                    return [self.g.tuple([self.g.bin("+", s, self.g.const(i)), x]) for i, x in enumerate(c)]
            if f == "builtins.zip":
                cs = [self.concrete_items(self.iter_value(a), limit) for n, a in zip(names, it.args) if n != "strict"]
                if cs and all(c is not None for c in cs):
                    return [self.g.tuple(t) for t in zip(*cs)]
            if f == "builtins.reversed":
                c = self.concrete_items(self.iter_value(it.args[0]), limit)
                if c is not None:
                    return list(reversed(c))
            if f == "itertools.product" and all(n.isdigit() for n in names):
                cs = [self.concrete_items(self.iter_value(a), limit) for a in it.args]
                if all(c is not None for c in cs):
                    import itertools
                    r = list(itertools.islice(itertools.product(*cs), 17))
                    if len(r) <= 16:
                        return [self.g.tuple(t) for t in r]
        return None

    def iter_value(self, it):
        """Content of an iterable value as seen by iteration."""
        if it.op == "ref":
            k = self.objs[it.data]["kind"]
            if k in ("list", "deque", "set", "tuple"):
                c = self.content(it)
                return c if c is not None else it
            if k == "dict":
                c = self.content(it)
                if c is not None and c.op == "dict":
                    return self.g.tuple(c.args[::2])
                return it
            if k == "gen":
                return self.run_gen(it)
            if k == "inst":
                m = self.class_attr(self.objs[it.data]["cls"], "__iter__")
                if m is not None:
                    r = self.call(self.g.mk("bound", (m, it)), [], [], None)
                    return self.iter_value(r)
                return it
        if it.op == "phi":
            a, b = self.iter_value(it.args[1]), self.iter_value(it.args[2])
            if a is not it.args[1] or b is not it.args[2]:
                return self.g.phi(it.args[0], a, b)
        return it

    def run_gen(self, ref):
        info = self.objs[ref.data]
        if "result" in info:
            return info["result"]
        f, vals, parents = info["fn"], info["vals"], info["parents"]
        r = self.exec_function(f, vals, parents)
        info["result"] = r
        return r

    def unroll(self, st, items):
        breaks = []
        fallen = True
        for x in items:
            cont = []
            self.loopctl = getattr(self, "loopctl", [])
            self.loopctl.append((breaks, cont))
            base = self.state.pc
            try:
                try:
                    self.assign(st.target, x)
                    self.block(st.body)
                    cont.append((self.state.pc, self.g.const(None), self.state))
                except Cut:
                    pass
            finally:
                self.loopctl.pop()
            if not cont:
                fallen = False
                break
            _, self.state = self.merge_exits(cont, base)
        if fallen and st.orelse:
            try:
                self.block(st.orelse)
            except Cut:
                fallen = False
        exits = list(breaks)
        if fallen:
            exits.append((self.state.pc, self.g.const(None), self.state))
        if not exits:
            raise Cut
        base = self.common_prefix([e[0] for e in exits])
        _, self.state = self.merge_exits(exits, base)

    @staticmethod
    def common_prefix(pcs):
        p = pcs[0]
        for q in pcs[1:]:
            i = 0
            while i < len(p) and i < len(q) and p[i] == q[i]:
                i += 1
            p = p[:i]
        return p

    def st_Break(self, st):
        if not getattr(self, "loopctl", None):
            raise Cut
        self.loopctl[-1][0].append((self.state.pc, self.g.const(None), self.state.clone()))
        raise Cut

    def st_Continue(self, st):
        if not getattr(self, "loopctl", None):
            raise Cut
        self.loopctl[-1][1].append((self.state.pc, self.g.const(None), self.state.clone()))
        raise Cut

    def st_While(self, st):
        self.symloop(st, None)

    def symloop(self, st, it):
        """A loop with an unknown number of iterations: mu nodes by fixpoint."""
        if not hasattr(self, "loopctl"):
            self.loopctl = []
        # the identity of a loop is its syntactic position and call path
        path = tuple(fr.oid for fr in self.frames)
        lid = self.g.uid()
        pre = self.state
        changed = {}
        kind = "for" if it is not None else "while"
        for attempt in range(8):
            loop = Loop(lid, kind, self.loc, self.frames[-1].fn.qual)
            loop.iter = it
            nev = len(self.events)
            frames_marks = [(fr, len(fr.returns), len(fr.yields)) for fr in self.frames]
            self.state = pre.clone()
            mus = {}
            for (oid, slot), init in changed.items():
                name = slot if isinstance(slot, str) else str(slot)
                mu = self.g.mk("mu", (init,), (lid, attempt, oid, name))
                mus[(oid, slot)] = mu
                self.hset(oid, slot, mu)
            self.loops[lid] = loop
            self.loopstack.append(lid)
            breaks, cont = [], []
            self.loopctl.append((breaks, cont))
            after_cond = None
            cond = None
            try:
                try:
                    if it is not None:
                        x = self.elem(it, lid)
                        head = self.state.clone()
                        self.assign(st.target, x)
                        loop.body_pc = self.state.pc
                        self.block(st.body)
                    else:
                        cond = self.cond(st.test)
                        loop.cond = cond
                        head = self.state.clone()
                        self.assume(cond, True)
                        self.block(st.body)
                    cont.append((self.state.pc, self.g.const(None), self.state))
                except Cut:
                    pass
            finally:
                self.loopctl.pop()
                self.loopstack.pop()
            if cont:
                basepc = self.common_prefix([c[0] for c in cont] + [pre.pc])
                _, back = self.merge_exits(cont, basepc)
            else:
                back = None
            # which pre-existing locations change?
            new = {}
            if back is not None:
                for oid, d0 in pre.heap.items():
                    d1 = back.heap.get(oid)
                    if d1 is None or d1 is d0:
                        continue
                    for s, v0 in d0.items():
                        v1 = d1.get(s, v0)
                        if (oid, s) in changed:
                            continue
                        if v1 is not v0:
                            new[(oid, s)] = v0
                    if self.objs[oid]["kind"] == "inst" and self.objs[oid].get("symbolic"):
                        for s in d1:
                            if s not in d0 and (oid, s) not in changed:
                                v0 = self.g.mk("attr0", (self.ref(oid),), s)
                                if d1[s] is not v0:
                                    new[(oid, s)] = v0
            if new and attempt < 7:
                changed.update(new)
                del self.events[nev:]
                for fr, a, b in frames_marks:
                    del fr.returns[a:]
                    del fr.yields[b:]
                continue
            for key, mu in mus.items():
                oid, slot = key
                mu.back = back.heap.get(oid, {}).get(slot, mu) if back is not None else mu
                loop.mus[key] = mu
            loop.has_break = bool(breaks)
            break
        # after the loop
        exits = []
        if it is not None:
            if st.orelse:
                self.state = State(dict(head.heap), pre.pc)
                self.merge_new_names(back)
                try:
                    self.block(st.orelse)
                    exits.append((self.state.pc, self.g.const(None), self.state))
                except Cut:
                    pass
            else:
                self.state = State(dict(head.heap), pre.pc)
                self.merge_new_names(back)
                exits.append((self.state.pc, self.g.const(None), self.state))
        else:
            self.state = State(dict(head.heap), head.pc)
            self.merge_new_names(back)
            try:
                self.assume(cond, False)
                if st.orelse:
                    self.block(st.orelse)
                exits.append((self.state.pc, self.g.const(None), self.state))
            except Cut:
                pass
        loop.exits = [b[0] for b in breaks]
        exits = breaks + exits
        if not exits:
            raise Cut
        if len(exits) == 1:
            self.state = exits[0][2]
            self.state.pc = exits[0][0]
            return
        # several ways out: merge with opaque gates, keep the common facts
        acc = exits[-1][2]
        acc.pc = exits[-1][0]
        for i, (pc, _v, s) in enumerate(reversed(exits[:-1])):
            s.pc = pc
            gate = self.g.mk("brk", (self.conj(pc[len(pre.pc):]),), (lid, i))
            acc = self.join_states(gate, s, acc)
            cs = set(s.pc)
        self.state = acc

    def merge_new_names(self, back):
        """Names first bound inside a loop body keep the value of the last iteration."""
        if back is None:
            return
        for oid, d1 in back.heap.items():
            d0 = self.state.heap.get(oid)
            if d0 is None:
                self.state.heap[oid] = d1
            elif d0 is not d1:
                add = {s: v for s, v in d1.items() if s not in d0}
                if add:
                    d = dict(d0)
                    d.update(add)
                    self.state.heap[oid] = d

    def elem(self, it, lid, off=0):
        g = self.g
        if it.op == "call":
            f, names = it.data
            if f == "builtins.enumerate":
                start = it.args[1] if len(it.args) > 1 else g.const(0)
                return g.tuple([g.mk("counter", (start,), lid), self.elem(self.iter_value(it.args[0]), lid, off)])
            if f == "builtins.zip":
                return g.tuple([self.elem(self.iter_value(a), lid, off)
                                for n, a in zip(names, it.args) if n != "strict"])
            if f == "builtins.range":
                a = it.args
                if len(a) == 1:
                    a = (g.const(0), a[0], g.const(1))
                elif len(a) == 2:
                    a = (a[0], a[1], g.const(1))
                return g.mk("relem", a, lid)
            if f == "itertools.pairwise":
                x = self.iter_value(it.args[0])
                return g.tuple([self.elem(x, lid, off), self.elem(x, lid, off + 1)])
            if f == "builtins.reversed":
                return self.elem(self.iter_value(it.args[0]), lid, ("rev", off))
            if f in ("builtins.list", "builtins.tuple", "builtins.iter"):
                return self.elem(self.iter_value(it.args[0]), lid, off)
            if f == "builtins.map":
                fn = it.args[0]
                xs = [self.elem(self.iter_value(a), lid, off) for a in it.args[1:]]
                return self.call(fn, xs, [], None)
        if it.op == "index" and it.args[1].op == "slice":
            lo, hi, stp = it.args[1].args
            if lo.op == "const" and isinstance(lo.data, int) and lo.data >= 0 and hi.op == "const" and hi.data is None \
                    and stp.op == "const" and stp.data in (None, 1) and isinstance(off, int):
                return self.elem(it.args[0], lid, off + lo.data)
        if it.op in ("gen",):
            r = None
            for y in it.args:
                r = y if r is None else g.mk("alt", (r, y))
            return r if r is not None else g.opaque("empty generator")
        if it.op in ("tuple", "list"):
            r = None
            for y in it.args:
                if y.op == "star":
                    y = self.elem(self.iter_value(y.args[0]), lid, off)
                r = y if r is None else g.mk("alt", (r, y))
            return r if r is not None else g.opaque("empty")
        if it.op == "comp":
            return it.args[0]
        if it.op == "listof":
            return self.elem(it.args[0], lid, off)
        if it.op == "append":
            base, x = it.args
            e = self.elem(base, lid, off) if not (base.op == "tuple" and not base.args) else None
            return x if e is None else g.mk("alt", (e, x))
        if it.op == "mu":
            # list grown in an earlier loop
            xs = self.grown(it)
            if xs:
                r = None
                for y in xs:
                    r = y if r is None else g.mk("alt", (r, y))
                return r
        if it.op == "phi":
            a, b = it.args[1], it.args[2]
            if any(z.op in ("tuple", "list", "comp", "gen", "append", "listof", "call") for z in (a, b)):
                ea, eb = self.elem(a, lid, off), self.elem(b, lid, off)
                return self.mkphi(it.args[0], ea, eb)
        n = g.mk("elem", (it,), (lid, off))
        if n.meta is None:
            n.meta = {"hint": self.elem_hint(it)}
        return n

    def grown(self, mu, depth=0):
        """Elements appended to a list held by a mu node (None if unknown)."""
        out = []
        seen = set()

        def walk(n):
            if n.id in seen:
                return True
            seen.add(n.id)
            if n.op == "mu":
                ok = walk(n.args[0])
                return ok and (n.back is None or walk(n.back))
            if n.op in ("tuple", "list"):
                out.extend(n.args)
                return True
            if n.op == "append":
                out.append(n.args[1])
                return walk(n.args[0])
            if n.op == "phi":
                return walk(n.args[1]) and walk(n.args[2])
            if n.op == "comp":
                out.append(n.args[0])
                return True
            return False
        return out if walk(mu) else None

    # hints of classes of the package, from annotations
    def ann_hint(self, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            return self.ann_hint(ann.left) or self.ann_hint(ann.right)
        if isinstance(ann, ast.Name):
            for m in self.p.modules.values():
                b = m.bind.get(ann.id)
                if b is not None and b[0] == "class":
                    return ("inst", f"{m.name}:{ann.id}")
            return None
        if isinstance(ann, ast.Attribute):
            return self.ann_hint(ast.Name(id=ann.attr))
        if isinstance(ann, ast.Subscript):
            nm = ann.value.attr if isinstance(ann.value, ast.Attribute) else getattr(ann.value, "id", "")
            if nm in ("Sequence", "list", "List", "Iterable", "Iterator", "Collection", "tuple"):
                s = ann.slice
                if isinstance(s, ast.Tuple):
                    s = s.elts[0]
                h = self.ann_hint(s)
                return ("seq", h) if h else None
        return None

    def hint(self, n):
        if n.op == "param":
            return self.ann_hint(n.meta.get("ann")) if n.meta else None
        if n.op in ("elem", "index"):
            if n.meta and "hint" in n.meta:
                return n.meta["hint"]
            h = self.hint(n.args[0])
            if h and h[0] == "seq":
                return h[1]
        return None

    def elem_hint(self, it):
        h = self.hint(it)
        return h[1] if h and h[0] == "seq" else None

    # ---------------------------------------------------- try and with
    def st_Try(self, st):
        base = self.state.clone()
        outs = []
        nret = len(self.frames[-1].returns)
        self.excdepth += 1 if st.finalbody else 0
        if st.finalbody:
            self.finals.append(st)
        saved = None
        try:
            self.block(st.body)
            if st.orelse:
                self.block(st.orelse)
            outs.append((self.state.pc, self.g.const(None), self.state))
        except Cut:
            pass
        finally:
            if st.finalbody:
                self.finals.pop()
                self.excdepth -= 1
        mid = base
        for h in st.handlers:
            self.state = base.clone()
            t = self.ev_exc_types(h.type)
            gate = self.g.mk("exc", (), (self.g.uid(), t))
            try:
                self.assume(gate, True)
                if h.name:
                    self.hset(self.frames[-1].oid, h.name, self.g.opaque("exception"))
                self.block(h.body)
                outs.append((self.state.pc, self.g.const(None), self.state))
            except Cut:
                pass
        if not outs:
            if st.finalbody:
                self.state = base.clone()
                try:
                    self.block(st.finalbody)
                except Cut:
                    pass
            raise Cut
        acc = outs[0][2]
        for o in outs[1:]:
            gate = next((c for c, p in o[2].pc if c.op == "exc"), self.g.mk("exc", (), (self.g.uid(), "?")))
            acc = self.join_states(gate, o[2], acc)
        self.state = acc
        if st.finalbody:
            self.block(st.finalbody)

    def ev_exc_types(self, t):
        return ast.unparse(t) if t is not None else "BaseException"

    def st_With(self, st):
        n = 0
        exits = []
        for item in st.items:
            ctx = self.ev(item.context_expr)
            self.event("with_enter", ctx)
            val = ctx
            if self.is_gen(ctx):
                r = self.run_gen(ctx)
                val = r.args[0] if r.args else self.g.opaque("empty context")
            elif self.is_inst(ctx):
                m = self.class_attr(self.objs[ctx.data]["cls"], "__enter__")
                if m is not None:
                    val = self.call(self.g.mk("bound", (m, ctx)), [], [], st)
            else:
                val = self.g.mk("enter", (self.freeze(ctx),))
            self.locks.append(ctx)
            n += 1
            exits.append(ctx)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val)
        try:
            self.block(st.body)
        finally:
            for _ in range(n):
                self.locks.pop()
        self.setloc(st)
        for c in reversed(exits):
            self.event("with_exit", c)

    st_AsyncWith = st_With
    st_TryStar = st_Try

    # ------------------------------------------------------- assignment
    def lookup_scope(self, name):
        fr = self.frames[-1]
        if name in fr.globals_:
            return None
        return fr.oid

    def assign(self, t, v, aug=False):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals_:
                self.event("global_write", v, name=t.id, module=fr.fn.module.name)
                return
            # nonlocal writes
            if t.id not in self.state.heap[fr.oid]:
                for o in fr.parents:
                    if t.id in self.state.heap.get(o, {}) and self._is_nonlocal(fr.fn.ast, t.id):
                        self.hset(o, t.id, v)
                        return
            self.hset(fr.oid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.setattr(b, t.attr, v, aug)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev(t.slice)
            self.setitem(b, i, v, t, aug)
        else:
            self.gap("assignment target")

    @staticmethod
    def _is_nonlocal(fn, name):
        for n in ast.walk(fn):
            if isinstance(n, ast.Nonlocal) and name in n.names:
                return True
        return False

    def setattr(self, b, name, v, aug=False):
        if b.op == "ref" and self.objs[b.data]["kind"] == "inst":
            cls = self.objs[b.data]["cls"]
            if self.objs[b.data].get("symbolic"):
                self.event("attr_write", b, attr=name, value=v)
            m = self.class_attr_raw(cls, name)
            if m is not None and isinstance(m[2], ast.FunctionDef) and "setter" in deco_names(m[2]):
                pass
            self.hset(b.data, name, v)
            if not self.objs[b.data].get("symbolic") :
                self.event("attr_init", b, attr=name, value=v)
            return
        if b.op == "phi" and any(self.is_inst(x) for x in b.args[1:]):
            for x, pol in ((b.args[1], True), (b.args[2], False)):
                if self.is_inst(x):
                    old = self.hget(x.data, name) or self.g.mk("attr0", (x,), name)
                    self.hset(x.data, name, self.mkphi(b.args[0], v if pol else old, old if pol else v))
                else:
                    self.event("mutate", x, how="attribute assignment", op="setattr", target=name)
            return
        if b.op in ("mod", "cls", "func"):
            self.event("module_write", b, attr=name, value=v)
            return
        self.event("mutate", b, how="attribute assignment", op="setattr", target=name, value=v)

    def setitem(self, b, i, v, t, aug):
        if b.op == "ref" and self.objs[b.data]["kind"] in ("list", "deque", "set"):
            c = self.content(b)
            if c.op == "tuple" and i.op == "const" and isinstance(i.data, int) and -len(c.args) <= i.data < len(c.args):
                a = list(c.args)
                a[i.data] = v
                self.hset(b.data, "$", self.g.tuple(a))
            else:
                self.hset(b.data, "$", self.g.mk("update", (c, i, self.freeze(v)), "set"))
            return
        if self.is_dict(b):
            c = self.content(b)
            if c.op == "dict" and i.op == "const":
                d = list(c.args)
                for k in range(0, len(d), 2):
                    if d[k] is i:
                        d[k + 1] = v
                        break
                else:
                    d += [i, v]
                self.hset(b.data, "$", self.g.mk("dict", tuple(d)))
            else:
                self.hset(b.data, "$", self.g.mk("update", (c, i, self.freeze(v)), "set"))
            return
        if not aug:
            self.event("mutate", b, how="item assignment", op="setitem", target=ast.unparse(t), index=i, value=v)
        else:
            self.event("mutate", b, how="item assignment", op="setitem", target=ast.unparse(t), index=i, value=v)
        self.updating(b, i, self.freeze(v))
        new = self.g.mk("update", (b, i, self.freeze(v)), "set")
        # the object is changed in place: rebind the expression that names it
        if isinstance(t.value, (ast.Name, ast.Attribute)):
            self.rebind(t.value, b, new)

    def updating(self, x, idx, val):
        pass

    def rebind(self, expr, old, new):
        if isinstance(expr, ast.Name):
            for o in (self.frames[-1].oid,) + self.frames[-1].parents:
                d = self.state.heap.get(o, {})
                if d.get(expr.id) is old:
                    self.hset(o, expr.id, new)
                    break
        elif isinstance(expr, ast.Attribute):
            b = self.ev(expr.value)
            if b.op == "ref" and self.objs[b.data]["kind"] == "inst":
                self.hset(b.data, expr.attr, new)

    def unpack(self, elts, v):
        v = self.iter_value(v)
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        h = self.hint(v)
        if h and h[0] == "inst":
            m = self.class_attr(h[1], "__iter__")
            if m is not None:
                try:
                    r = self.call(self.g.mk("bound", (m, v)), [], [], None)
                    r = self.iter_value(r)
                    if r.op == "gen" and len(r.args) >= n:
                        v = self.g.tuple(r.args)
                except Cut:
                    pass
        if v.op == "phi" and all(x.op in ("tuple", "list") for x in v.args[1:]) and \
                len(v.args[1].args) == len(v.args[2].args):
            v = self.g.tuple([self.mkphi(v.args[0], a, b) for a, b in zip(v.args[1].args, v.args[2].args)])
        if v.op == "gen" and len(v.args) == n:
            v = self.g.tuple(v.args)
        if not stars:
            for k, e in enumerate(elts):
                if v.op in ("tuple", "list") and len(v.args) == n and not any(a.op == "star" for a in v.args):
                    self.assign(e, v.args[k])
                else:
                    self.assign(e, self.sub(v, self.g.const(k)))
            return
        s = stars[0]
        if v.op in ("tuple", "list") and not any(a.op == "star" for a in v.args) and len(v.args) >= n - 1:
            items = list(v.args)
            after = n - s - 1
            for k in range(s):
                self.assign(elts[k], items[k])
            mid = items[s: len(items) - after]
            self.assign(elts[s].value, self.mklist(self.g.tuple(mid)))
            for k in range(after):
                self.assign(elts[s + 1 + k], items[len(items) - after + k])
            return
        if v.op in ("tuple", "list") and s <= len(v.args) and not any(a.op == "star" for a in v.args[:s]):
            for k in range(s):
                self.assign(elts[k], v.args[k])
            after = n - s - 1
            rest = v.args[s:]
            tail = []
            if after and not any(a.op == "star" for a in rest[len(rest) - after:]):
                tail = rest[len(rest) - after:]
                rest = rest[: len(rest) - after]
                for k in range(after):
                    self.assign(elts[s + 1 + k], tail[k])
            else:
                for k in range(after):
                    self.assign(elts[s + 1 + k], self.sub(v, self.g.const(k - after)))
            self.assign(elts[s].value, self.mklist(self.g.tuple(rest)))
            return
        for k in range(s):
            self.assign(elts[k], self.sub(v, self.g.const(k)))
        after = n - s - 1
        hi = self.g.const(-after) if after else self.g.const(None)
        rest = self.sub(v, self.g.mk("slice", (self.g.const(s) if s else self.g.const(None), hi, self.g.const(None))))
        self.assign(elts[s].value, rest)
        for k in range(after):
            self.assign(elts[s + 1 + k], self.sub(v, self.g.const(k - after)))

    # ------------------------------------------------------ expressions
    def ev(self, e) -> Node:
        self.setloc(e)
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.gap(f"expression {type(e).__name__}")
            kids = [self.ev(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            return self.g.unknown(type(e).__name__, kids)
        return m(e)

    def cond(self, e):
        v = self.ev(e)
        return self.truthy(v)

    def truthy(self, v):
        if v.op == "ref":
            k = self.objs[v.data]["kind"]
            if k in ("list", "deque", "set"):
                c = self.content(v)
                if c is not None and c.op == "tuple" and not any(a.op == "star" for a in c.args):
                    return self.g.const(len(c.args) > 0)
                if c is not None:
                    return self.g.mk("nonempty", (c,))
            if k == "inst":
                return self.g.const(True)
        if v.op == "call" and v.data[0] == "builtins.bool" and len(v.args) == 1:
            return self.truthy(v.args[0])
        return v

    def ex_Constant(self, e):
        if e.value is Ellipsis:
            return self.g.mk("ellipsis")
        return self.g.const(e.value)

    def ex_Name(self, e):
        return self.name(e.id)

    def name(self, nm):
        fr = self.frames[-1]
        if nm not in fr.globals_:
            v = self.state.heap.get(fr.oid, {}).get(nm)
            if v is not None:
                return v
            for o in fr.parents:
                v = self.state.heap.get(o, {}).get(nm)
                if v is not None:
                    return v
        v = self.global_value(fr.fn.module.name, nm)
        if v is not None:
            return v
        if nm in BUILTINS:
            if nm == "NotImplemented":
                return self.g.mk("ext", (), "NotImplemented")
            return self.g.mk("ext", (), "builtins." + nm)
        if nm in fr.fn.module.tc_bind:
            self.event("typing_only", None, name=nm)
        return self.g.mk("ext", (), "?" + nm)

    def modnode(self, dotted):
        if dotted in self.p.modules:
            return self.g.mk("mod", (), dotted)
        return self.extnode(dotted)

    def extnode(self, dotted):
        if dotted == "numpy":
            return self.g.mk("ns", (), "np")
        if dotted == "jax.numpy":
            return self.g.mk("ns", (), "jnp")
        if dotted.startswith("numpy."):
            return self.ns_attr(self.g.mk("ns", (), "np"), dotted[6:])
        if dotted.startswith("jax.numpy."):
            return self.ns_attr(self.g.mk("ns", (), "jnp"), dotted[10:])
        if dotted in ("math.pi", "math.inf", "math.e", "math.tau"):
            return self.g.const(getattr(math, dotted[5:]))
        if dotted == "math.nan":
            return self.g.mk("ext", (), "nan")
        return self.g.mk("ext", (), dotted)

    def global_value(self, modname, nm):
        r = self.p.resolve(modname, nm)
        if r is None:
            return None
        if r[0] == "def":
            m = self.p.modules[r[1]]
            return self.func_node(m, None, r[2])
        if r[0] == "class":
            return self.g.mk("cls", (), f"{r[1]}:{r[2].name}")
        if r[0] == "mod":
            return self.g.mk("mod", (), r[1])
        if r[0] == "ext":
            return self.extnode(r[1])
        if r[0] == "assign":
            key = (r[1], nm)
            if key in self.modcache:
                return self.modcache[key]
            if key in self.mod_eval:
                return self.g.opaque("cyclic global")
            self.mod_eval.add(key)
            m = self.p.modules[r[1]]
            v = self.eval_in_module(m, r[2])
            if v.op in ("ref", "new", "call", "opaque"):
                v = self.g.mk("global", (self.freeze(v),), key)
            self.modcache[key] = v
            self.mod_eval.discard(key)
            return v
        return None

    def eval_in_module(self, m, expr):
        f = FnInfo()
        f.module, f.cls, f.ast, f.qual, f.parents, f.decos, f.is_gen = m, None, expr, f"{m.name}:<module>", (), [], False
        fr = Frame(self.new_obj("frame"), f, ())
        self.frames.append(fr)
        sl = self.loc
        try:
            return self.ev(expr)
        except Cut:
            return self.g.opaque("module value")
        finally:
            self.frames.pop()
            self.loc = sl
            self.g.curloc = sl

    def ns_attr(self, ns, name):
        if name in ("pi", "inf", "e"):
            return self.g.const(getattr(math, name))
        if name == "nan":
            return self.g.mk("ext", (), "nan")
        if name == "newaxis":
            return self.g.const(None)
        if name == "__name__":
            if ns.data == "np":
                return self.g.const("numpy")
            if ns.data == "jnp":
                return self.g.const("jax.numpy")
            if self.cfg.backend:
                return self.g.const(self.cfg.backend)
            return self.g.mk("attr", (self.g.mk("ns", (), "xp"),), "__name__")
        self.event("ns_attr", ns, name=name)
        return self.g.mk("nsfn", (), (ns.data, name))

    def ex_Attribute(self, e):
        b = self.ev(e.value)
        self.setloc(e)
        return self.getattr(b, e.attr)

    def getattr(self, b, name):
        g = self.g
        op = b.op
        if op == "mod":
            v = self.global_value(b.data, name)
            if v is not None:
                return v
            self.event("missing_attr", b, attr=name)
            return g.mk("ext", (), f"{b.data}.{name}")
        if op == "ns":
            return self.ns_attr(b, name)
        if op == "nsfn":
            return self.ns_attr_nested(b, name)
        if op == "ext":
            return self.extnode(f"{b.data}.{name}")
        if op == "ref":
            k = self.objs[b.data]["kind"]
            if k == "inst":
                cls = self.objs[b.data]["cls"]
                v = self.hget(b.data, name)
                if v is not None:
                    return v
                m = self.class_attr_raw(cls, name)
                if m is None and name.startswith("__") and not name.endswith("__"):
                    m = self.class_attr_raw(cls, name)
                if m is not None:
                    mod, cd, d = m
                    if isinstance(d, ast.FunctionDef):
                        fn = self.func_node(mod, cd, d)
                        if "property" in deco_names(d) or "cached_property" in deco_names(d):
                            if "cached_property" in deco_names(d):
                                self.event("cache", fn, how="cached_property")
                            return self.call(g.mk("bound", (fn, b)), [], [], None)
                        if "staticmethod" in deco_names(d):
                            return fn
                        if "classmethod" in deco_names(d):
                            return g.mk("bound", (fn, g.mk("cls", (), cls)))
                        return g.mk("bound", (fn, b))
                    if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)) and not any(
                            "dataclass" in ast.unparse(x) for x in cd.decorator_list):
                        return g.mk("global", (self.freeze(self.eval_in_module(mod, d)),), (cls, name))
                    if not self.objs[b.data].get("symbolic"):
                        return self.eval_in_module(mod, d)
                if name == "__class__":
                    return g.mk("cls", (), cls)
                r = g.mk("attr0", (b,), name)
                if self.objs[b.data].get("symbolic"):
                    self.event("attr_read", r, attr=name)
                return r
            return g.attr(b, name)
        if op == "cls":
            m = self.class_attr_raw(b.data, name)
            if m is not None:
                mod, cd, d = m
                if isinstance(d, ast.FunctionDef):
                    fn = self.func_node(mod, cd, d)
                    if "classmethod" in deco_names(d):
                        return g.mk("bound", (fn, b))
                    return fn
                return g.mk("clsattr", (b, self.eval_in_module(mod, d)), name)
            return g.attr(b, name)
        if op == "phi" and any(x.op in ("ref", "ns", "cls", "mod", "ext") for x in b.args[1:]):
            c = b.args[0]
            t = self.known(c)
            if t is not None:
                return self.getattr(b.args[1] if t else b.args[2], name)
            return self.fork(c, lambda: self.getattr(b.args[1], name), lambda: self.getattr(b.args[2], name))
        h = self.hint(b)
        if h and h[0] == "inst" and op in ("param", "elem", "index"):
            m = self.class_attr_raw(h[1], name)
            if m is not None and isinstance(m[2], ast.FunctionDef) and not self.is_protocol(h[1]):
                fn = self.func_node(m[0], m[1], m[2])
                if "property" in deco_names(m[2]):
                    return self.call(g.mk("bound", (fn, b)), [], [], None)
                return g.mk("bound", (fn, b))
        if name == "real" or name == "imag":
            return self.call_node("xp." + name, [b], [])
        return g.attr(b, name)

    def is_protocol(self, cls):
        mod, _, nm = cls.partition(":")
        b = self.p.modules[mod].bind.get(nm)
        return b and any("Protocol" in ast.unparse(x) for x in b[1].bases)

    def ns_attr_nested(self, b, name):
        ns, pre = b.data
        self.event("ns_attr", self.g.mk("ns", (), ns), name=f"{pre}.{name}")
        return self.g.mk("nsfn", (), (ns, f"{pre}.{name}"))

    def class_attr_raw(self, cls, name, depth=0):
        mod, _, nm = cls.partition(":")
        m = self.p.modules.get(mod)
        b = m.bind.get(nm) if m else None
        if not b or b[0] != "class":
            return None
        cd = b[1]
        res = None
        for st in cd.body:
            if isinstance(st, ast.FunctionDef) and st.name == name and not pj.is_overload(st):
                res = (m, cd, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        res = (m, cd, st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name \
                    and st.value is not None:
                res = (m, cd, st.value)
        if res is None and depth < 5:
            for bs in cd.bases:
                r = self.p.resolve(mod, bs.id) if isinstance(bs, ast.Name) else None
                if r and r[0] == "class":
                    res = self.class_attr_raw(f"{r[1]}:{r[2].name}", name, depth + 1)
                    if res:
                        break
        return res

    def class_attr(self, cls, name):
        m = self.class_attr_raw(cls, name)
        if m is None or not isinstance(m[2], ast.FunctionDef):
            return None
        return self.func_node(*m)

    def ex_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev(e.slice)
        self.setloc(e)
        return self.sub(b, i)

    def sub(self, b, i):
        g = self.g
        if b.op == "ref":
            k = self.objs[b.data]["kind"]
            if k in ("list", "deque", "dict"):
                c = self.content(b)
                if c is not None:
                    if k != "dict" and i.op == "slice":
                        return self.mklist(self.index_content(c, i))
                    if c.op == "dict" and i.op != "const":
                        return self.dict_dispatch(c, i)
                    return self.index_content(c, i)
            if k == "inst":
                m = self.class_attr(self.objs[b.data]["cls"], "__getitem__")
                if m is not None:
                    return self.call(g.mk("bound", (m, b)), [i], [], None)
        if b.op == "call" and b.data[0] in ("builtins.globals", "builtins.vars"):
            return self.globals_dispatch(i)
        if b.op == "global" and b.args and b.args[0].op == "dict":
            if i.op == "const":
                r = g.index(b.args[0], i)
                if r.op != "index":
                    return r
            return self.dict_dispatch(b.args[0], i)
        if b.op == "global" and b.args and b.args[0].op in ("list", "tuple"):
            return g.index(b.args[0], i)
        if b.op == "phi" and any(self.is_list(x) for x in b.args[1:]):
            return self.fork(b.args[0], lambda: self.sub(b.args[1], i), lambda: self.sub(b.args[2], i))
        i = self.freeze(i)
        if i.op == "tuple":
            # flatten starred indices, drop nothing else
            flat = []
            for a in i.args:
                if a.op == "star" and a.args[0].op == "tuple":
                    flat.extend(a.args[0].args)
                else:
                    flat.append(a)
            i = g.tuple(flat)
        return g.index(b, i)

    def index_content(self, c, i):
        if c.op in ("tuple", "list", "dict"):
            return self.g.index(c, i)
        if c.op == "phi":
            return self.g.phi(c.args[0], self.index_content(c.args[1], i), self.index_content(c.args[2], i))
        return self.g.mk("index", (c, i))

    def dict_dispatch(self, c, i):
        keys, vals = c.args[::2], c.args[1::2]
        r = self.g.opaque("keyerror")
        for k, v in reversed(list(zip(keys, vals))):
            r = self.g.phi(self.g.cmp("==", i, k), v, r)
        return r

    def globals_dispatch(self, i):
        m = self.frames[-1].fn.module
        if i.op == "const":
            v = self.global_value(m.name, i.data)
            return v if v is not None else self.g.opaque("keyerror")
        if i.op == "fstr" and i.args and i.args[0].op == "const" and isinstance(i.args[0].data, str):
            pre = i.args[0].data
            r = self.g.opaque("keyerror")
            for nm in sorted(m.bind):
                if nm.startswith(pre) and m.bind[nm][0] in ("def", "class"):
                    v = self.global_value(m.name, nm)
                    c = self.g.cmp("==", i.args[1] if len(i.args) == 2 else i, self.g.const(nm[len(pre):]
                                   if len(i.args) == 2 else nm))
                    r = self.g.phi(c, v, r)
            return r
        return self.g.unknown("globals", (i,))

    def ex_Slice(self, e):
        return self.g.mk("slice", tuple(self.ev(x) if x is not None else self.g.const(None)
                                        for x in (e.lower, e.upper, e.step)))

    def ex_Tuple(self, e):
        return self.g.tuple(self.elts(e.elts))

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iter_value(self.ev(x.value))
                if v.op in ("tuple", "list"):
                    out.extend(v.args)
                else:
                    out.append(self.g.mk("star", (v,)))
            else:
                out.append(self.ev(x))
        return out

    def ex_List(self, e):
        return self.mklist(self.g.tuple(self.elts(e.elts)))

    def ex_Set(self, e):
        return self.g.mk("set", tuple(self.elts(e.elts)))

    def ex_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v)
                c = self.content(vv) if vv.op == "ref" else vv
                if c is not None and c.op == "dict":
                    items.extend(c.args)
                else:
                    items.extend([self.g.mk("star", (vv,)), vv])
            else:
                items.extend([self.ev(k), self.ev(v)])
        oid = self.new_obj("dict")
        self.hset(oid, "$", self.g.mk("dict", tuple(items)))
        return self.ref(oid)

    def ex_Starred(self, e):
        return self.g.mk("star", (self.iter_value(self.ev(e.value)),))

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(self.g.const(v.value))
            else:
                parts.append(self.ev(v.value))
        if all(p.op == "const" for p in parts):
            return self.g.const("".join(str(p.data) for p in parts))
        return self.g.mk("fstr", tuple(self.freeze(p) for p in parts))

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ex_Lambda(self, e):
        fr = self.frames[-1]
        f = self.fninfo(fr.fn.module, None, e, qual=f"{fr.fn.qual}.<lambda>")
        defaults = [self.ev(d) for d in e.args.defaults]
        kwd = [self.ev(d) if d is not None else None for d in e.args.kw_defaults]
        uid = self.g.uid()
        self.closures[uid] = (f, (fr.oid,) + fr.parents, defaults, kwd)
        return self.g.mk("closure", (), uid)

    def ex_IfExp(self, e):
        c = self.cond(e.test)
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.truthy(v)
            t = self.known(c)
            if t is not None:
                if t == isand:
                    return go(k + 1)
                return v
            base = self.state
            self.state = base.clone()
            try:
                self.assume(c, isand)
                r = go(k + 1)
                st = self.state
            except Cut:
                self.state = base
                return v
            other = base.clone()
            self.state = other
            try:
                self.assume(c, not isand)
            except Cut:
                self.state = st
                return r
            self.state = self.join_states(c, st if isand else self.state, self.state if isand else st)
            return self.mkand(v, r) if isand else self.mkor(v, r)
        return go(0)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.g.neg(self.truthy(v))
        return self.g.un(UNOPS[type(e.op)], v)

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.setloc(e)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if self.is_list(a) and op == "+":
            ca = self.content(a)
            cb = self.iter_value(b)
            if ca.op in ("tuple", "list") and cb.op in ("tuple", "list"):
                return self.mklist(self.g.tuple(ca.args + cb.args))
            return self.mklist(self.g.mk("bin", (self.freeze(a), self.freeze(b)), "+"))
        if self.is_list(a) and op == "*":
            return self.mklist(self.g.mk("repeat", (self.freeze(a), b)))
        return self.g.bin(op, self.freeze(a), self.freeze(b))

    def ex_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            o = CMPOPS[type(op)]
            a, b = left, right
            if o in ("in", "not in"):
                b = self.freeze(self.iter_value(b) if b.op == "ref" else b)
            else:
                a, b = (self.freeze(a), self.freeze(b)) if o not in ("is", "is not") else (a, b)
            c = self.cmp(o, a, b)
            res = c if res is None else self.mkand(res, c)
            left = right
        return res

    def cmp(self, o, a, b):
        return self.g.cmp(o, a, b)

    def ex_Call(self, e):
        f = self.ev(e.func)
        args, kwargs = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.iter_value(self.ev(a.value))
                if v.op in ("tuple", "list"):
                    args.extend(v.args)
                elif v.op == "gen" and not self._gen_in_loop(v):
                    args.extend(v.args)
                else:
                    args.append(self.g.mk("star", (v,)))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                c = self.content(v) if self.is_dict(v) else v
                if c.op == "dict" and all(x.op == "const" for x in c.args[::2]):
                    kwargs.extend((x.data, y) for x, y in zip(c.args[::2], c.args[1::2]))
                else:
                    kwargs.append((None, v))
            else:
                kwargs.append((k.arg, v))
        self.setloc(e)
        return self.call(f, args, kwargs, e)

    def _gen_in_loop(self, v):
        return True

    def comp(self, e, kind):
        """List comprehensions, generator expressions and sets."""
        fr = self.frames[-1]
        saved = dict(self.state.heap[fr.oid])
        targets = set()
        for gen in e.generators:
            for n in ast.walk(gen.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        pushed = [0]

        def go(k, conds):
            if k == len(e.generators):
                if kind == "dict":
                    kk = self.ev(e.key)
                    return [("v", self.g.tuple([kk, self.ev(e.value)]), list(conds))]
                return [("v", self.ev(e.elt), list(conds))]
            gen = e.generators[k]
            it = self.iter_value(self.ev(gen.iter))
            conc = self.concrete_items(it)
            out = []
            if conc is not None:
                for x in conc:
                    self.assign(gen.target, x)
                    cs = [self.cond(i) for i in gen.ifs]
                    if any(self.g.truth(c) is False for c in cs):
                        continue
                    out.extend(go(k + 1, conds + [c for c in cs if self.g.truth(c) is None]))
                return out
            lid = self.g.uid()
            loop = Loop(lid, "comp", self.loc, fr.fn.qual)
            loop.iter = it
            self.loops[lid] = loop
            self.loopstack.append(lid)
            try:
                self.assign(gen.target, self.elem(it, lid))
                cs = [self.cond(i) for i in gen.ifs]
                base = self.state.pc
                for c in cs:
                    try:
                        self.assume(c, True)
                    except Cut:
                        return []
                sub = go(k + 1, conds + cs)
                self.state.pc = base
                return [("l", it, lid, cs, sub)]
            finally:
                self.loopstack.pop()
        res = go(0, [])
        cur = dict(self.state.heap[fr.oid])
        for t in targets:
            if t in saved:
                cur[t] = saved[t]
            else:
                cur.pop(t, None)
        self.state.heap[fr.oid] = cur
        return self.comp_value(res)

    def comp_value(self, res):
        if all(r[0] == "v" and not r[2] for r in res):
            return self.g.tuple([self.freeze(r[1]) if r[1].op == "ref" and False else r[1] for r in res])
        parts = []
        for r in res:
            if r[0] == "v":
                parts.append(self.g.mk("opt", (self.freeze(r[1]), *r[2])) if r[2] else r[1])
            else:
                _, it, lid, cs, sub = r
                body = self.comp_value(sub)
                if body.op == "tuple" and len(body.args) == 1:
                    body = body.args[0]
                elif body.op == "tuple":
                    b = None
                    for y in body.args:
                        b = y if b is None else self.g.mk("alt", (b, y))
                    body = b if b is not None else self.g.opaque("empty comprehension")
                elif body.op == "comp":
                    pass
                inner = body.args[0] if body.op == "comp" else body
                parts.append(self.g.mk("comp", (self.freeze(inner), self.freeze(it), *cs), lid))
        if len(parts) == 1 and parts[0].op == "comp":
            return parts[0]
        return self.g.tuple([self.g.mk("star", (p,)) if p.op == "comp" else p for p in parts])

    def ex_ListComp(self, e):
        return self.mklist(self.comp(e, "list"))

    def ex_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def ex_SetComp(self, e):
        c = self.comp(e, "set")
        return self.g.mk("set", c.args if c.op == "tuple" else (c,))

    def ex_DictComp(self, e):
        c = self.comp(e, "dict")
        oid = self.new_obj("dict")
        if c.op == "tuple" and all(x.op == "tuple" and len(x.args) == 2 for x in c.args):
            items = [y for x in c.args for y in x.args]
            self.hset(oid, "$", self.g.mk("dict", tuple(items)))
        else:
            self.hset(oid, "$", self.g.mk("dictof", (c,)))
        return self.ref(oid)

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else self.g.const(None)
        self.setloc(e)
        self.do_yield(v)
        return self.g.opaque("sent value")

    def do_yield(self, v):
        fr = self.frames[-1]
        self.event("yield", v, frame=fr.oid)
        fr.yields.append((v, self.state.pc, tuple(self.loopstack)))

    def ex_YieldFrom(self, e):
        v = self.ev(e.value)
        it = self.iter_value(v)
        if it.op == "gen":
            for y in it.args:
                self.do_yield(y)
        elif it.op in ("tuple", "list"):
            for y in it.args:
                self.do_yield(y)
        else:
            lid = self.g.uid()
            loop = Loop(lid, "comp", self.loc, self.frames[-1].fn.qual)
            loop.iter = it
            self.loops[lid] = loop
            self.do_yield(self.elem(it, lid))
        return self.g.const(None)

    def ex_Await(self, e):
        return self.ev(e.value)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, e):
        op = f.op
        if op in ("func", "closure"):
            return self.call_func(f, args, kwargs)
        if op == "bound":
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs, e)
        if op == "cls":
            return self.instantiate(f, args, kwargs)
        if op == "clsattr":
            return self.call(f.args[1], args, kwargs, e)
        if op == "partial":
            n = f.data
            return self.call(f.args[0], list(f.args[1:len(f.args) - len(n)]) + list(args),
                             list(zip(n, f.args[len(f.args) - len(n):])) + list(kwargs), e)
        if op == "phi":
            c = f.args[0]
            return self.fork(c, lambda: self.call(f.args[1], args, kwargs, e),
                             lambda: self.call(f.args[2], args, kwargs, e))
        if op == "nsfn":
            ns, name = f.data
            return self.call_ns(ns, name, args, kwargs)
        if op == "ext":
            return self.call_ext(f.data, args, kwargs, e)
        if op == "attr":
            return self.call_method(f.args[0], f.data, args, kwargs, e)
        if op == "global" and f.args and f.args[0].op in ("call",):
            pass
        if self.is_inst(f):
            m = self.class_attr(self.objs[f.data]["cls"], "__call__")
            if m is not None:
                return self.call(self.g.mk("bound", (m, f)), args, kwargs, e)
        if op == "ref" and self.objs[f.data]["kind"] == "at":
            pass
        if op == "opaque" and f.data[0] == "keyerror":
            raise Cut
        h = self.hint(f)
        if h and h[0] == "inst" and not self.is_protocol(h[1]):
            m = self.class_attr(h[1], "__call__")
            if m is not None:
                return self.call(self.g.mk("bound", (m, f)), args, kwargs, e)
        # a callable supplied by the caller, or unknown
        a = [self.freeze(x) for x in args]
        kw = sorted((k or "**", self.freeze(v)) for k, v in kwargs) if kwargs else []
        names = tuple(str(i) for i in range(len(a))) + tuple(k for k, _ in kw)
        n = self.g.mk("ucall", (self.freeze(f), *a, *[v for _, v in kw]), names)
        self.event("ucall", n)
        return n

    def prim_name(self, qual):
        if qual in self.cfg.primitives:
            return True
        mod = qual.partition(":")[0]
        for p in self.cfg.primitive_prefix:
            if qual.startswith(p):
                return True
        return False

    def bind_args(self, fnast, defaults, kwd, args, kwargs, module):
        a = fnast.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        extra = []
        star_seen = None
        i = 0
        for v in pos:
            if v.op == "star":
                star_seen = v.args[0]
                k = 0
                # unknown number of positional arguments
                rest = names[i:]
                for j, nm in enumerate(rest):
                    if nm not in dict((k2, 1) for k2, _ in kwargs):
                        vals[nm] = self.sub(star_seen, self.g.const(j))
                extra.append(v)
                i = len(names)
                continue
            if i < len(names):
                vals[names[i]] = v
                i += 1
            else:
                extra.append(v)
        kwonly = [p.arg for p in a.kwonlyargs]
        rest_kw = []
        unknown_kw = None
        for k, v in kwargs:
            if k is None:
                unknown_kw = v
            elif k in names or k in kwonly:
                vals[k] = v
            else:
                rest_kw.append((k, v))
        nd = len(a.defaults)
        for j, nm in enumerate(names):
            if nm not in vals:
                if unknown_kw is not None:
                    d = None
                    if j >= len(names) - nd:
                        d = defaults[j - (len(names) - nd)]
                    vals[nm] = self.g.mk("kwget", (unknown_kw,) + ((d,) if d is not None else ()), nm)
                elif j >= len(names) - nd:
                    vals[nm] = defaults[j - (len(names) - nd)]
                else:
                    vals[nm] = self.g.opaque(f"missing argument {nm}")
                    self.event("missing_arg", None, name=nm)
        for j, nm in enumerate(kwonly):
            if nm not in vals:
                d = kwd[j]
                if unknown_kw is not None:
                    vals[nm] = self.g.mk("kwget", (unknown_kw,) + ((d,) if d is not None else ()), nm)
                else:
                    vals[nm] = d if d is not None else self.g.opaque(f"missing argument {nm}")
        if a.vararg:
            vals[a.vararg.arg] = self.g.tuple(extra) if not (len(extra) == 1 and extra[0].op == "star") else \
                extra[0].args[0]
        elif extra and not any(x.op == "star" for x in extra):
            self.event("excess_args", None)
        if a.kwarg:
            if unknown_kw is not None and not rest_kw:
                vals[a.kwarg.arg] = unknown_kw
            else:
                oid = self.new_obj("dict")
                items = []
                for k, v in rest_kw:
                    items += [self.g.const(k), v]
                self.hset(oid, "$", self.g.mk("dict", tuple(items)))
                vals[a.kwarg.arg] = self.ref(oid)
        elif rest_kw:
            for k, v in rest_kw:
                self.event("unexpected_kw", v, name=k)
        return vals

    def call_func(self, f, args, kwargs):
        if f.op == "func":
            fi = f.meta["fn"]
            if fi.defaults is None:
                dd = [self.eval_in_module(fi.module, d) for d in fi.ast.args.defaults]
                kd = [self.eval_in_module(fi.module, d) if d is not None else None for d in fi.ast.args.kw_defaults]
                fi.defaults = (dd, kd)
            defaults, kwd = fi.defaults
            parents = ()
            if any(d in ("cache", "lru_cache") for d in fi.decos):
                self.event("cache", f, how="cache decorator")
        else:
            fi, parents, defaults, kwd = self.closures[f.data]
        # the numpy_fallback decorator consumes an ``xp`` keyword
        extra_kw = []
        if "numpy_fallback" in fi.decos:
            an = [p.arg for p in fi.ast.args.posonlyargs + fi.ast.args.args + fi.ast.args.kwonlyargs]
            if "xp" not in an:
                kwargs = [(k, v) for k, v in kwargs if k != "xp"]
        vals = self.bind_args(fi.ast, defaults, kwd, args, kwargs, fi.module)
        aa = fi.ast.args
        order = [p.arg for p in aa.posonlyargs + aa.args] + ([aa.vararg.arg] if aa.vararg else []) \
            + [p.arg for p in aa.kwonlyargs] + ([aa.kwarg.arg] if aa.kwarg else [])
        vals = {k: vals[k] for k in order if k in vals}
        npos = len(args)
        passed = set(order[:npos]) | {k for k, _ in kwargs if k}
        if any(x.op == "star" for x in args) or any(k is None for k, _ in kwargs):
            passed = set(order)
        self.event("fncall", None, fn=fi.qual, vals=vals, passed=passed, fi=fi)
        if self.prim_name(fi.qual):
            self.prim_called[fi.qual] = self.prim_called.get(fi.qual, 0) + 1
            short = self.short(fi.qual)
            names = tuple(vals)
            a = tuple(self.freeze(vals[k]) for k in names)
            n = self.g.mk("call", a, (short, names))
            self.event("primcall", n, fn=fi.qual)
            if "inplace" in vals and not (vals["inplace"].op == "const" and vals["inplace"].data is False) and a:
                self.event("mutate", a[0], how="inplace=True", op="inplace", target=fi.qual)
                if short == "hp.almxfl" and vals["inplace"].op == "const":
                    # every name of the array sees the scaled coefficients
                    for k, v in list(self.state.heap.get(self.frames[-1].oid, {}).items()):
                        if v is a[0]:
                            self.hset(self.frames[-1].oid, k, n)
            return n
        if fi.is_gen:
            oid = self.new_obj("gen", fn=fi, vals=vals, parents=parents, name=fi.qual)
            n = self.ref(oid)
            return n
        if len(self.frames) > self.cfg.maxdepth:
            self.gap("depth")
            return self.g.unknown(fi.qual, tuple(vals.values()))
        return self.exec_function(fi, vals, parents)

    @staticmethod
    def short(qual):
        mod, _, nm = qual.partition(":")
        if mod == "glass._array_api_utils" and nm.startswith("xp_additions."):
            return "uxpx." + nm[13:]
        if mod == "glass.healpix":
            return "hp." + nm
        return qual

    def instantiate(self, c, args, kwargs):
        cls = c.data
        mod, _, nm = cls.partition(":")
        m = self.p.modules[mod]
        cd = m.bind[nm][1]
        if cls in self.cfg.opaque_classes:
            a = [self.freeze(x) for x in args]
            n = self.g.mk("call", tuple(a) + tuple(self.freeze(v) for _, v in kwargs),
                          ("new:" + cls, tuple(str(i) for i in range(len(a))) + tuple(k or "**" for k, _ in kwargs)))
            n2 = self.g.mk("new", (n,), (cls, self.g.uid()))
            self.event("new", n2, cls=cls)
            return n2
        oid = self.new_obj("inst", cls=cls)
        ref = self.ref(oid)
        init = self.class_attr(cls, "__init__")
        if init is not None:
            try:
                self.call(self.g.mk("bound", (init, ref)), args, kwargs, None)
            except Cut:
                raise
            return ref
        decos = deco_names(cd)
        if "dataclass" in decos:
            fields = []
            for st in cd.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    fields.append((st.target.id, st.value))
            pos = list(args)
            kw = dict((k, v) for k, v in kwargs if k)
            for i, (fn, d) in enumerate(fields):
                if i < len(pos):
                    v = pos[i]
                elif fn in kw:
                    v = kw[fn]
                elif d is not None:
                    v = self.eval_in_module(m, d)
                else:
                    v = self.g.opaque(f"missing field {fn}")
                self.hset(oid, fn, v)
            pi = self.class_attr(cls, "__post_init__")
            if pi is not None:
                self.call(self.g.mk("bound", (pi, ref)), [], [], None)
            return ref
        for k, v in kwargs:
            if k:
                self.hset(oid, k, v)
        return ref

    def call_node(self, fname, args, kwargs):
        """Canonical node of a call to a modelled or unknown external function."""
        base = fname.split(".", 1)[1] if "." in fname and fname.split(".")[0] in ("xp", "np", "jnp", "xpx", "uxpx") else fname
        pre = fname.split(".", 1)[0]
        if base in RENAME and pre in ("xp", "np", "jnp"):
            base = RENAME[base]
            fname = f"{pre}.{base}"
        a = [self.freeze(x) for x in args]
        kw = [(k or "**", self.freeze(v)) for k, v in kwargs]
        sig = SIG.get(base) if pre in ("xp", "np", "jnp", "xpx", "uxpx") else None
        names = []
        for i, x in enumerate(a):
            if sig and i < len(sig) and sig[i] != "*" and not any(y.op == "star" for y in a[: i + 1]):
                names.append(sig[i])
            else:
                names.append(str(i))
        names += [k for k, _ in kw]
        vals = a + [v for _, v in kw]
        # order keywords canonically after the positional ones
        pairs = list(zip(names, vals))
        if sig:
            order = {n: i for i, n in enumerate(sig)}
            pairs.sort(key=lambda p: (order.get(p[0], 100), p[0] if not p[0].isdigit() else ""))
        return self.g.mk("call", tuple(v for _, v in pairs), (fname, tuple(n for n, _ in pairs)))

    def call_ns(self, ns, name, args, kwargs):
        g = self.g
        pre = {"xp": "xp", "np": "np", "jnp": "jnp"}[ns]
        if ns == "np" and name.startswith("random"):
            return self.call_ext("np." + name, args, kwargs, None)
        self.ext_called[f"{pre}.{name}"] = self.ext_called.get(f"{pre}.{name}", 0) + 1
        kwd = dict((k, v) for k, v in kwargs)
        plain = [self.freeze(x) for x in args]
        self.event("nscall", None, ns=ns, name=name, args=plain, kwargs={k: self.freeze(v) for k, v in kwargs if k})
        if "out" in kwd and not (kwd["out"].op == "const" and kwd["out"].data is None):
            self.event("mutate", self.freeze(kwd["out"]), how="out= argument", op="out", target=f"{pre}.{name}")
        if name in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis") and args:
            self.event("mutate", plain[0], how=f"{name}()", op=name, target=f"{pre}.{name}")
        if name in ("add.at", "multiply.at", "subtract.at", "maximum.at", "minimum.at") and args:
            self.event("mutate", plain[0], how=f"{name}()", op=name, target=f"{pre}.{name}")
        simple = not kwargs and not any(x.op == "star" for x in args)
        if simple:
            if name in UFUNC and len(args) == 2 and name != "matmul":
                return g.bin(UFUNC[name], plain[0], plain[1])
            if name == "matmul" and len(args) == 2:
                return g.bin("@", plain[0], plain[1])
            if name in UCMP and len(args) == 2:
                return g.cmp(UCMP[name], plain[0], plain[1])
            if name == "negative" and len(args) == 1:
                return g.un("-", plain[0])
            if name in ("logical_not", "bitwise_invert") and len(args) == 1:
                return g.un("~", plain[0])
            if name == "square" and len(args) == 1:
                return g.bin("**", plain[0], g.const(2))
        if name == "broadcast_arrays" and not any(x.op == "star" for x in args):
            return g.tuple([self.call_node(f"{pre}.broadcast_arrays_item", [x] + [y for y in args], [])
                            for x in args])
        if name == "vectorize" and args:
            return g.mk("vectorized", (args[0],))
        if name == "apply_along_axis":
            return self.call_node(f"{pre}.{name}", args, kwargs)
        return self.call_node(f"{pre}.{name}", args, kwargs)

    RNG_CTORS = {"np.random.default_rng", "np.random.Generator", "np.random.RandomState", "random.Random",
                 "random.SystemRandom", "np.random.SeedSequence", "np.random.PCG64", "np.random.Philox",
                 "np.random.MT19937", "np.random.SFC64", "np.random.PCG64DXSM"}

    def call_ext(self, fn, args, kwargs, e):
        g = self.g
        self.ext_called[fn] = self.ext_called.get(fn, 0) + 1
        h = getattr(self, "b_" + fn.replace("builtins.", "").replace(".", "_"), None) \
            if (fn.startswith("builtins.") or fn in self.SPECIAL) else None
        if h is not None:
            r = h(args, kwargs, e)
            if r is not None:
                return r
        self.event("extcall", None, fn=fn, args=[self.freeze(x) for x in args],
                   kwargs={k: self.freeze(v) for k, v in kwargs if k})
        if fn in self.RNG_CTORS:
            n = g.mk("new", (self.call_node(fn, args, kwargs),), (fn, g.uid()))
            self.event("new", n, cls=fn)
            return n
        if fn.startswith("np.random.") or fn.startswith("random."):
            n = g.mk("draw", (g.mk("ext", (), fn), *[self.freeze(x) for x in args]), (fn, g.uid()))
            self.event("draw", n, src=g.mk("ext", (), fn), method=fn)
            return n
        kwd = dict((k, v) for k, v in kwargs)
        if "inplace" in kwd and not (kwd["inplace"].op == "const" and kwd["inplace"].data is False) and args:
            self.event("mutate", self.freeze(args[0]), how="inplace=True", op="inplace", target=fn)
        if "out" in kwd:
            self.event("mutate", self.freeze(kwd["out"]), how="out= argument", op="out", target=fn)
        if fn.startswith("math.") and all(x.op == "const" for x in args) and not kwargs:
            try:
                return g.const(getattr(math, fn[5:])(*[x.data for x in args]))
            except Exception:
                pass
        if fn.startswith("array_api_extra."):
            return self.call_xpx(fn[16:], args, kwargs, e)
        if fn in ("array_api_compat.array_namespace", "array_api_compat.get_namespace"):
            n = g.mk("ns", (), "xp")
            self.event("namespace", n, args=[self.freeze(x) for x in args])
            return n
        if fn == "collections.deque":
            c = self.iter_value(args[0]) if args else g.tuple(())
            return self.mklist(c, kind="deque")
        if fn == "functools.partial":
            return g.mk("partial", tuple(args) + tuple(v for k, v in kwargs if k),
                        tuple(k for k, _ in kwargs if k))
        if fn in ("typing.cast",):
            return args[1]
        if fn.startswith("operator.") and len(args) == 2:
            om = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "pow": "**", "matmul": "@"}
            if fn[9:] in om:
                return self.binop(om[fn[9:]], args[0], args[1])
        if fn in ("copy.copy", "copy.deepcopy"):
            x = args[0]
            if self.is_list(x):
                return self.mklist(self.content(x), kind=self.objs[x.data]["kind"])
            return self.call_node(fn, args, kwargs)
        if fn == "warnings.warn":
            self.event("warn", self.freeze(args[0]) if args else None)
            return g.const(None)
        if fn in ("array_api_compat.is_numpy_namespace", "array_api_compat.is_jax_namespace") and self.cfg.backend:
            want = {"array_api_compat.is_numpy_namespace": "numpy", "array_api_compat.is_jax_namespace": "jax.numpy"}[fn]
            return g.const(self.cfg.backend == want)
        rngish = [x for x in list(args) + [v for _, v in kwargs] if self.rngish(x)]
        if rngish:
            for r in rngish:
                self.rng_used_by_ext(r, fn)
        n = self.call_node(fn, args, kwargs)
        if rngish:
            return g.mk("extdraw", (n,), (fn, g.uid()))
        return n

    SPECIAL = {"typing.cast", "itertools.product", "dataclasses.replace", "functools.reduce", "math.prod",
               "itertools.accumulate", "itertools.chain"}

    def rngish(self, n):
        if n.op == "new":
            return n.data[0] in self.RNG_CTORS or n.data[0].endswith("Generator")
        if n.op == "param":
            a = ast.unparse(n.meta["ann"]) if n.meta and n.meta.get("ann") is not None else ""
            return "Generator" in a and not a.startswith("Generator[") or n.data[1] in ("rng", "urng")
        if n.op == "phi":
            return any(self.rngish(x) for x in n.args[1:])
        if self.is_inst(n):
            cls = self.objs[n.data]["cls"]
            return any(self.class_attr(cls, m) is not None for m in ("random", "normal", "uniform", "standard_normal"))
        if n.op in ("attr0",):
            return n.data in ("rng", "_rng")
        return False

    def rng_used_by_ext(self, r, fn):
        if self.is_inst(r):
            # the library calls back into the object: a draw of any of its sampling methods
            cls = self.objs[r.data]["cls"]
            for m in ("random", "normal", "uniform", "standard_normal", "poisson", "multinomial"):
                f = self.class_attr(cls, m)
                if f is not None:
                    fi = f.meta["fn"]
                    args = []
                    for prm in (fi.ast.args.posonlyargs + fi.ast.args.args)[1:]:
                        args.append(self.g.mk("extarg", (), (fn, prm.arg)))
                    try:
                        self.call(self.g.mk("bound", (f, r)), args, [], None)
                    except Cut:
                        pass
            return
        n = self.g.mk("draw", (r,), (fn, self.g.uid()))
        self.event("draw", n, src=r, method=fn)

    def call_xpx(self, name, args, kwargs, e):
        g = self.g
        if name == "at":
            b = self.freeze(args[0])
            n = g.mk("at", (b,))
            if len(args) > 1:
                return g.mk("index", (n, self.freeze(args[1])))
            return n
        if name == "apply_where":
            kw = dict(kwargs)
            cond = self.freeze(args[0])
            xs = args[1]
            xs = list(self.iter_value(xs).args) if self.iter_value(xs).op in ("tuple", "list") else [xs]
            f1 = args[2] if len(args) > 2 else kw.get("f1")
            f2 = args[3] if len(args) > 3 else kw.get("f2")
            sel = [g.mk("masked", (self.freeze(x), cond)) for x in xs]
            a = self.call(f1, sel, [], e)
            if f2 is not None and not (f2.op == "const" and f2.data is None):
                b = self.call(f2, [g.mk("masked", (self.freeze(x), g.un("~", cond))) for x in xs], [], e)
            else:
                b = kw.get("fill_value", g.const(None))
            return self.call_node("xpx.apply_where", [cond, a, b], [])
        return self.call_node("xpx." + name, args, kwargs)

    def call_method(self, b, name, args, kwargs, e):
        g = self.g
        # array updates through array_api_extra.at
        if b.op in ("index", "at") and name in ("set", "add", "subtract", "multiply", "divide", "power", "min", "max"):
            base = b.args[0] if b.op == "index" else b
            if base.op == "at":
                x = base.args[0]
                idx = b.args[1] if b.op == "index" else g.mk("ellipsis")
                kw = dict(kwargs)
                copy = kw.get("copy")
                val = self.freeze(args[0]) if args else self.freeze(kw.get("y", g.const(None)))
                if not (copy is not None and copy.op == "const" and copy.data is True):
                    self.event("mutate", x, how=f"at().{name}()", op="at", target="xpx.at", index=idx, value=val)
                self.updating(x, idx, val)
                nop = g.mk("update", (x, idx, val), name)
                return nop
        if b.op == "ref":
            k = self.objs[b.data]["kind"]
            if k in ("list", "deque", "set"):
                return self.list_method(b, name, args, kwargs)
            if k == "dict":
                return self.dict_method(b, name, args, kwargs)
        if name == "__array_namespace__":
            n = g.mk("ns", (), "xp")
            self.event("namespace", n, args=[self.freeze(b)])
            return n
        fargs = [self.freeze(x) for x in args]
        fkw = {k: self.freeze(v) for k, v in kwargs if k}
        self.event("mcall", b, name=name, args=fargs, kwargs=fkw)
        if name in DRAW_METHODS and self.rngish(b):
            n = g.mk("draw", (b, *fargs, *fkw.values()),
                     (name, tuple(str(i) for i in range(len(fargs))) + tuple(fkw), g.uid()))
            self.event("draw", n, src=b, method=name)
            if name == "shuffle" and fargs:
                self.event("mutate", fargs[0], how="shuffle()", op="shuffle", target=name)
            return n
        if (b.op == "const" and isinstance(b.data, str) and all(x.op == "const" for x in [*fargs, *fkw.values()])
                and name in ("replace", "lower", "upper", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "startswith",
                             "endswith", "title", "capitalize", "casefold", "format", "count", "find", "isalpha", "isdigit", "swapcase")):
            try:
                return g.const(getattr(b.data, name)(*[x.data for x in fargs], **{k: x.data for k, x in fkw.items()}))
            except Exception:
                pass
        if name in MUT_METHODS:
            self.event("mutate", b, how=f"{name}() method", op="method:" + name, target=name)
        if "out" in fkw:
            self.event("mutate", fkw["out"], how="out= argument", op="out", target=name)
        bb = self.freeze(b)
        kws = sorted(fkw)
        return g.mk("mcall", (bb, *fargs, *[fkw[k] for k in kws]),
                    (name, tuple(str(i) for i in range(len(fargs))) + tuple(kws)))

    def list_extend(self, ref, v):
        c = self.content(ref)
        v = self.iter_value(v)
        if v.op in ("tuple", "list") and c.op == "tuple":
            self.hset(ref.data, "$", self.g.tuple(c.args + v.args))
        else:
            lid = self.g.uid()
            loop = Loop(lid, "comp", self.loc, self.frames[-1].fn.qual)
            loop.iter = v
            self.loops[lid] = loop
            self.hset(ref.data, "$", self.g.mk("append", (c, self.elem(v, lid))))

    def list_method(self, b, name, args, kwargs):
        g = self.g
        c = self.content(b)
        if name == "append" or name == "add":
            x = args[0]
            if c.op == "tuple" and len(c.args) < 64 and name == "append":
                self.hset(b.data, "$", g.tuple(c.args + (x,)))
            else:
                self.hset(b.data, "$", g.mk("append", (c, x)))
            return g.const(None)
        if name == "appendleft":
            if c.op == "tuple":
                self.hset(b.data, "$", g.tuple((args[0],) + c.args))
            else:
                self.hset(b.data, "$", g.mk("prepend", (c, args[0])))
            return g.const(None)
        if name == "extend":
            self.list_extend(b, args[0])
            return g.const(None)
        if name in ("pop", "popleft"):
            if c.op == "tuple" and c.args:
                k = 0 if name == "popleft" else -1
                if args and args[0].op == "const":
                    k = args[0].data
                try:
                    a = list(c.args)
                    x = a.pop(k)
                    self.hset(b.data, "$", g.tuple(a))
                    return x
                except Exception:
                    pass
            x = g.mk("popped", (c,), name)
            self.hset(b.data, "$", g.mk("without", (c,), name))
            return x
        if name in ("clear",):
            self.hset(b.data, "$", g.tuple(()))
            return g.const(None)
        if name in ("sort", "reverse", "insert", "remove", "rotate", "discard", "update"):
            self.hset(b.data, "$", g.mk("reordered", (c, *[self.freeze(x) for x in args]), name))
            return g.const(None)
        if name == "copy":
            return self.mklist(c)
        return g.mk("mcall", (self.freeze(b), *[self.freeze(x) for x in args]),
                    (name, tuple(str(i) for i in range(len(args)))))

    def dict_method(self, b, name, args, kwargs):
        g = self.g
        c = self.content(b)
        if name == "get" and c.op == "dict" and args:
            d = args[1] if len(args) > 1 else g.const(None)
            if args[0].op == "const":
                for k, v in zip(c.args[::2], c.args[1::2]):
                    if k is args[0]:
                        return v
                return d
            r = d
            for k, v in reversed(list(zip(c.args[::2], c.args[1::2]))):
                r = self.mkphi(g.cmp("==", args[0], k), v, r)
            return r
        if c.op == "dict":
            if name == "keys":
                return g.tuple(c.args[::2])
            if name == "values":
                return g.tuple(c.args[1::2])
            if name == "items":
                return g.tuple([g.tuple(t) for t in zip(c.args[::2], c.args[1::2])])
        if name in ("update", "setdefault", "pop", "popitem", "clear"):
            self.hset(b.data, "$", g.mk("reordered", (c, *[self.freeze(x) for x in args]), name))
        return g.mk("mcall", (self.freeze(b), *[self.freeze(x) for x in args]),
                    (name, tuple(str(i) for i in range(len(args)))))

    # --------------------------------------------------------- builtins
    def b_len(self, args, kw, e):
        x = self.iter_value(args[0]) if args[0].op == "ref" and self.objs[args[0].data]["kind"] != "gen" else args[0]
        if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args):
            return self.g.const(len(x.args))
        if x.op == "dict":
            return self.g.const(len(x.args) // 2)
        return self.g.mk("call", (self.freeze(x),), ("builtins.len", ("0",)))

    def b_tuple(self, args, kw, e):
        if not args:
            return self.g.tuple(())
        x = self.iter_value(args[0])
        c = self.concrete_items(x, 64)
        if c is not None:
            return self.g.tuple(c)
        if x.op == "gen":
            return x
        if x.op == "call" and x.data[0] == "builtins.map" or x.op in ("comp",):
            return self._materialise(x)
        return x if x.op in ("tuple", "comp") else self.g.mk("call", (x,), ("builtins.tuple", ("0",)))

    def _materialise(self, x):
        if x.op == "call" and x.data[0] == "builtins.map":
            lid = self.g.uid()
            loop = Loop(lid, "comp", self.loc, self.frames[-1].fn.qual if self.frames else "?")
            loop.iter = x
            self.loops[lid] = loop
            self.loopstack.append(lid)
            try:
                return self.g.mk("comp", (self.freeze(self.elem(x, lid)), x), lid)
            finally:
                self.loopstack.pop()
        return x

    def b_list(self, args, kw, e):
        if not args:
            return self.mklist(self.g.tuple(()))
        if args[0].op == "set" and not all(a.op == "const" and isinstance(a.data, int) for a in args[0].args):
            self.event("hashorder", args[0])
        x = self.iter_value(args[0])
        c = self.concrete_items(x, 64)
        if c is not None:
            return self.mklist(self.g.tuple(c))
        return self.mklist(self._materialise(x))

    def b_dict(self, args, kw, e):
        items = []
        if args:
            x = self.content(args[0]) if self.is_dict(args[0]) else self.iter_value(args[0])
            if x.op == "dict":
                items += list(x.args)
            else:
                oid = self.new_obj("dict")
                self.hset(oid, "$", self.g.mk("dictof", (self.freeze(x),)))
                return self.ref(oid)
        for k, v in kw:
            if k is None:
                return None
            items += [self.g.const(k), v]
        oid = self.new_obj("dict")
        self.hset(oid, "$", self.g.mk("dict", tuple(items)))
        return self.ref(oid)

    def b_set(self, args, kw, e):
        x = self.iter_value(args[0]) if args else self.g.tuple(())
        return self.g.mk("set", x.args if x.op == "tuple" else (self.freeze(x),))

    b_frozenset = b_set

    def b_abs(self, args, kw, e):
        return self.call_node("xp.abs", args, [])

    def b_bool(self, args, kw, e):
        if args:
            t = self.g.truth(args[0])
            if t is not None:
                return self.g.const(t)
        return None

    def b_pow(self, args, kw, e):
        if len(args) == 2:
            return self.g.bin("**", args[0], args[1])

    def b_max(self, args, kw, e):
        return self._minmax("max", args, kw)

    def b_min(self, args, kw, e):
        return self._minmax("min", args, kw)

    def _minmax(self, name, args, kw):
        if len(args) >= 2 and all(a.op == "const" for a in args):
            return self.g.const((max if name == "max" else min)(a.data for a in args))
        if len(args) >= 2:
            return self.g.mk("call", tuple(sorted((self.freeze(a) for a in args), key=lambda n: n.id)),
                             ("builtins." + name, tuple(str(i) for i in range(len(args)))))
        return None

    def b_isinstance(self, args, kw, e):
        x, t = args[0], args[1]
        if self.is_inst(x) and t.op == "cls":
            return self.g.const(self.objs[x.data]["cls"] == t.data)
        return None

    def b_type(self, args, kw, e):
        if len(args) == 1 and self.is_inst(args[0]):
            return self.g.mk("cls", (), self.objs[args[0].data]["cls"])
        return None

    def b_callable(self, args, kw, e):
        if args[0].op in ("func", "closure", "cls", "bound", "nsfn"):
            return self.g.const(True)
        return None

    def b_getattr(self, args, kw, e):
        if len(args) >= 2 and args[1].op == "const":
            if args[0].op == "ns" and len(args) == 3:
                return None
            return self.getattr(args[0], args[1].data)
        if args[0].op == "mod" and args[1].op == "fstr":
            m = self.p.modules[args[0].data]
            i = args[1]
            if i.args[0].op == "const":
                pre = i.args[0].data
                r = args[2] if len(args) > 2 else self.g.opaque("keyerror")
                for nm in sorted(m.bind):
                    if nm.startswith(pre) and m.bind[nm][0] in ("def", "class"):
                        r = self.g.phi(self.g.cmp("==", i.args[1], self.g.const(nm[len(pre):])),
                                       self.global_value(m.name, nm), r)
                return r
        return None

    def b_setattr(self, args, kw, e):
        if args[1].op == "const":
            self.setattr(args[0], args[1].data, args[2])
        else:
            self.event("mutate", args[0], how="setattr()", op="setattr", target="?")
        return self.g.const(None)

    def b_object___setattr__(self, args, kw, e):
        return self.b_setattr(args, kw, e)

    def b_object___new__(self, args, kw, e):
        c = args[0]
        if c.op == "cls":
            oid = self.new_obj("inst", cls=c.data)
            return self.ref(oid)
        return None

    def b_sum(self, args, kw, e):
        x = self.iter_value(args[0])
        c = self.concrete_items(x)
        if c is not None and c:
            r = args[1] if len(args) > 1 else None
            for y in c:
                if y.op == "opt":
                    # an item that is left out when a condition fails
                    v, *conds = y.args
                    for k in reversed(conds):
                        v = self.g.phi(k, v, self.binop("*", self.g.const(0), v))
                    y = v
                r = y if r is None else self.binop("+", r, y)
            return r
        return self.g.mk("call", (self.freeze(x),) + tuple(args[1:]), ("builtins.sum", ("0", "1")[: len(args)]))

    def b_map(self, args, kw, e):
        xs = [self.iter_value(a) for a in args[1:]]
        cs = [self.concrete_items(x) for x in xs]
        if all(c is not None for c in cs):
            return self.g.tuple([self.call(args[0], list(t), [], e) for t in zip(*cs)])
        if len(xs) == 1 and xs[0].op == "star":
            return None
        return self.g.mk("call", (args[0], *xs), ("builtins.map", tuple(str(i) for i in range(len(args)))))

    def b_next(self, args, kw, e):
        x = self.iter_value(args[0])
        if x.op in ("tuple", "list") and x.args and args[0].op != "ref":
            return x.args[0]
        lid = self.g.uid()
        loop = Loop(lid, "comp", self.loc, self.frames[-1].fn.qual)
        loop.iter = x
        self.loops[lid] = loop
        r = self.elem(x, lid)
        self.event("next", r, src=args[0])
        if len(args) > 1:
            return self.g.mk("alt", (r, args[1]))
        return r

    def b_slice(self, args, kw, e):
        N = self.g.const(None)
        if len(args) == 1:
            return self.g.mk("slice", (N, args[0], N))
        if len(args) == 2:
            return self.g.mk("slice", (args[0], args[1], N))
        return self.g.mk("slice", tuple(args[:3]))

    def b_typing_cast(self, args, kw, e):
        return args[1]

    def b_super(self, args, kw, e):
        return self.g.opaque("super")

    def b_functools_reduce(self, args, kw, e):
        x = self.iter_value(args[1])
        c = self.concrete_items(x)
        if c:
            r = args[2] if len(args) > 2 else None
            for y in c:
                r = y if r is None else self.call(args[0], [r, y], [], e)
            return r
        return None

    def b_dataclasses_replace(self, args, kw, e):
        x = args[0]
        if self.is_inst(x):
            oid = self.new_obj("inst", cls=self.objs[x.data]["cls"])
            self.state.heap[oid] = dict(self.state.heap[x.data])
            for k, v in kw:
                if k:
                    self.hset(oid, k, v)
            return self.ref(oid)
        return None

    def b_itertools_chain(self, args, kw, e):
        xs = [self.iter_value(a) for a in args]
        if all(x.op in ("tuple", "list") for x in xs):
            return self.g.tuple([y for x in xs for y in x.args])
        return self.g.tuple([self.g.mk("star", (x,)) if x.op not in ("tuple", "list") else x for x in xs]) \
            if not any(x.op in ("tuple", "list") for x in xs) else None


def analyse(project, qual, config=None, bind=None, graph=None, cls=None):
    """Evaluate one entry point; never raises on odd code, records gaps instead."""
    it = (cls or Interp)(project, config, graph)
    it.result = None
    it.broken = None
    try:
        it.run_entry(qual, bind)
    except Cut:
        it.broken = "no path returns"
    except Budget as ex:
        it.broken = str(ex)
    except pj.AnalysisBroken:
        raise
    except RecursionError:
        it.broken = "recursion"
    return it
