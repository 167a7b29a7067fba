"""Array code works with every supported array library.

Conformance analysis against the array API standard.  Every public function is analysed for
a strict array library; functions wrapped to run on NumPy arrays are taken as converting
primitives.  Obligations, per construct: names taken from the caller's array namespace are in
the standard; calls match the standard's signatures (keyword-only axes, no library-specific
keywords); element types given to them come from the same namespace; their array arguments
are arrays of that library (not Python numbers, lists or NumPy arrays); operators do not mix
arrays of the caller's library with NumPy arrays, nor integer or truth values with floating
point; only attributes and methods of the standard are used on arrays; no element is assigned
in place except through array_api_extra.at, whose result is used; public functions that are
given arrays do not return unconverted NumPy arrays.
"""

import ast

from ..arrayapi import ARRAY_ATTRS, NAMES, SIG
from ..interp import Config, analyse
from ..ir import show
from ..kinds import Kinds
from ..util import entries, short

ASSUMPTIONS = ["Names and signatures of the standard are those of array_api_strict 2.6.1 (2025.12).",
               "Callables and objects supplied by the user (weights, cosmologies) return arrays of the caller's library."]
EXEMPT = ("glass.user:", "glass.lensing:shear_from_convergence", "glass.jax:", "glass.healpix:_WritableGenerator",
          "glass._array_api_utils:numpy_fallback", "glass._array_api_utils:default_xp")
CREATE = {"asarray", "arange", "linspace", "zeros", "ones", "empty", "eye", "full", "finfo", "iinfo", "isdtype", "broadcast_shapes",
          "result_type", "can_cast", "concat", "stack", "broadcast_arrays", "meshgrid", "from_dlpack", "broadcast_arrays_item"}
LISTS = {"concat", "stack", "broadcast_arrays", "meshgrid"}
BINARY = {k for k, v in SIG.items() if v[0][:2] == ["x1", "x2"]} | {"where", "clip"}
EXTRA = {"broadcast_arrays_item"}


def fallbacks(p):
    out = []
    for q in entries(p):
        r = p.find_func(q)
        if r and any("numpy_fallback" in ast.unparse(d) for d in r[2].decorator_list):
            out.append(q)
    return tuple(out)


def check(c):
    p = c.project
    prims = fallbacks(p)
    for q in entries(p):
        if q.startswith(EXEMPT) or q in prims:
            continue
        c.section(one, c, p, q, prims)
    c.section(discarded, c, p)


def one(c, p, q, prims):
    it = analyse(p, q, Config(backend="array_api_strict", primitives=prims))
    c.count(it)
    cons = short(q)
    if it.broken:
        c.unk("the function is analysed", cons, it.broken)
        return
    K = Kinds(it)
    n_attr = n_call = n_op = 0
    pos = Pos(p)
    # names and signatures
    for e in it.events:
        if e.kind == "ns_attr" and e.node.data == "xp":
            name = e.info["name"]
            n_attr += 1
            if name not in SIG and name not in NAMES and name.split(".")[0] not in ("random",) or name.startswith("random"):
                c.bad("names of the standard", f"{fn_of(e)}:{name}", f"xp.{name} is not in the array API standard", e.loc)
        elif e.kind == "extcall" and str(e.info["fn"]).startswith("?xp."):
            name = e.info["fn"][4:]
            n_attr += 1
            if name not in SIG:
                c.bad("names of the standard", f"{fn_of(e)}:{name}", f"xp.{name} is not in the array API standard", e.loc)
            else:
                n_call += signature(c, e, name, e.info["args"], e.info["kwargs"], K)
        elif e.kind == "nscall" and e.info["ns"] == "xp" and e.info["name"] in SIG:
            n_call += signature(c, e, e.info["name"], e.info["args"], e.info["kwargs"], K)
            arguments(c, e, e.info["name"], e.info["args"], e.info["kwargs"], K)
        elif e.kind == "mutate" and e.info["how"] in ("item assignment", "del item"):
            k = K.of(e.node)
            if k[0] == "xp" and not pos.in_fallback(e.loc):
                c.bad("no element assignment", f"{fn_of(e)}", f"{e.info['target']} assigns into an array of the caller's library", e.loc)
        elif e.kind == "mutate" and e.info["how"] == "augassign" and "[" in str(e.info.get("target")) and K.of(e.node)[0] == "xp":
            # x[i] += v is an element assignment
            t = str(e.info["target"])
            if t.endswith("]") and not pos.in_fallback(e.loc):
                c.bad("no element assignment", f"{fn_of(e)}", f"{t} is updated in place in an array of the caller's library", e.loc)
        elif e.kind == "mcall":
            k = K.of(e.node)
            if k[0] == "xp" and k[0] != "seq" and e.info["name"] not in ARRAY_ATTRS and not e.info["name"].startswith("__"):
                c.bad("methods of the standard", f"{fn_of(e)}:{e.info['name']}",
                      f"array method {e.info['name']}() is not in the array API standard", e.loc)
    # operators, attributes and indices
    for n in it.g.nodes:
        if n.op in ("bin", "cmp"):
            a, b = K.of(n.args[0]), K.of(n.args[1])
            n_op += 1
            if {a[0], b[0]} == {"xp", "np"}:
                c.bad("no mixing of array libraries", f"{at(n, cons)}", f"{show(n, 3)} combines an array of the caller's library with a NumPy array", n.loc)
            elif "xp" in (a[0], b[0]) and {a[0], b[0]} <= {"xp", "py"}:
                types(c, n, a, b, cons)
        elif n.op == "attr" and n.args:
            k = K.of(n.args[0])
            if k[0] == "xp" and n.data not in ARRAY_ATTRS and not str(n.data).startswith("__") and n.data not in (
                    "set", "add", "multiply", "subtract", "divide", "power", "min", "max") and n.args[0].op not in ("at", "index", "elem"):
                c.bad("attributes of the standard", f"{at(n, cons)}:{n.data}", f"array attribute {n.data} is not in the array API standard", n.loc)
        elif n.op == "index" and n.args[0].op != "at":
            k = K.of(n.args[0])
            i = n.args[1]
            parts = i.args if i.op == "tuple" else (i,)
            if k[0] == "xp" and any(x.op in ("list", "listof") for x in parts):
                c.bad("index types of the standard", at(n, cons), f"{show(n, 2)} indexes an array with a list", n.loc)
            if k[0] == "xp" and any(K.of(x)[0] == "np" and x.op not in ("elem", "index", "star") for x in parts):
                c.bad("no mixing of array libraries", at(n, cons), f"{show(n, 2)} indexes an array with a NumPy array", n.loc)
        elif n.op == "call" and n.data[0] == "builtins.len" and n.args:
            if K.of(n.args[0])[0] == "xp":
                c.bad("methods of the standard", f"{at(n, cons)}:len", "arrays of the standard have no length", n.loc)
        elif n.op == "call" and n.data[0] == "builtins.round" and n.args and K.of(n.args[0])[0] == "xp":
            c.bad("methods of the standard", f"{at(n, cons)}:round", "arrays of the standard cannot be given to round()", n.loc)
    # results
    if it.result is not None:
        for what, v in parts_of(it.result):
            k = K.of(v)
            if k[0] == "np":
                c.bad("results are the caller's arrays", cons, f"{what} is an unconverted NumPy array: {show(v, 3)}", v.loc)
            elif k[0] == "xp":
                c.ok("results are the caller's arrays", cons, what)
    for e in it.events:
        if e.kind == "yield" and e.info.get("value") is not None and len(e.stack if hasattr(e, "stack") else ()) <= 1:
            for what, v in parts_of(e.info["value"]):
                if K.of(v)[0] == "np":
                    c.bad("results are the caller's arrays", cons, f"{what} is an unconverted NumPy array: {show(v, 3)}", e.loc)
    c.ok("names of the standard", cons, f"{n_attr} names")
    c.ok("signatures of the standard", cons, f"{n_call} calls")
    c.ok("no mixing of array libraries", cons, f"{n_op} operations")


class Pos:
    def __init__(self, p):
        self.p = p
        self.ranges = {}
        for m, cls, fn, prefix in p.all_functions():
            if any("numpy_fallback" in ast.unparse(d) for d in fn.decorator_list):
                self.ranges.setdefault(m.rel, []).append((fn.lineno, fn.end_lineno))

    def in_fallback(self, loc):
        return loc is not None and any(a <= loc[1] <= b for a, b in self.ranges.get(loc[0], ()))


def fn_of(e):
    return e.loc[2] if e.loc else "?"


def at(n, cons):
    return n.loc[2] if n.loc else cons


def parts_of(n, name="the result", depth=0):
    if depth > 4:
        return
    if n.op in ("tuple", "list"):
        for i, a in enumerate(n.args):
            yield from parts_of(a, f"result {i}", depth + 1)
    elif n.op == "listof" and n.args:
        yield from parts_of(n.args[0], "an element of the result", depth + 1)
    elif n.op == "phi":
        for a in n.args[1:]:
            yield from parts_of(a, name, depth + 1)
    else:
        yield name, n


def signature(c, e, name, args, kwargs, K):
    pos, posonly, kwonly, var, vk = SIG[name]
    if any(a.op == "star" for a in args) or any(k is None for k in kwargs):
        return 0
    if len(args) > len(pos) and not var:
        c.bad("signatures of the standard", f"{fn_of(e)}:{name}",
              f"xp.{name} takes {len(pos)} positional arguments, {len(args)} are given", e.loc)
    for k in kwargs:
        if k in kwonly or k in pos and k not in posonly or vk:
            continue
        c.bad("signatures of the standard", f"{fn_of(e)}:{name}", f"xp.{name} has no keyword argument {k}", e.loc)
    d = kwargs.get("dtype")
    if d is None and name == "astype" and len(args) > 1:
        d = args[1]
    if d is not None:
        if d.op == "ext" and d.data in ("builtins.float", "builtins.int", "builtins.bool", "builtins.complex") or \
                d.op == "const" and isinstance(d.data, str) or d.op == "nsfn" and d.data[0] == "np":
            c.bad("element types of the standard", f"{fn_of(e)}:{name}", f"dtype {show(d)} is not an element type of the caller's library", e.loc)
    return 1


def alternatives(n):
    """Values n may have: both sides of choices the caller can make either way."""
    if n.op == "phi" and "isinstance" not in show(n.args[0], 4) and "__name__" not in show(n.args[0], 4):
        return alternatives(n.args[1]) + alternatives(n.args[2])
    if n.op in ("comp", "star", "listof") and n.args:
        return alternatives(n.args[0])
    return [n]


def may_be_numpy(K, a):
    return K.of(a)[0] == "np" or any(K.of(x)[0] == "np" for x in alternatives(a))


def arguments(c, e, name, args, kwargs, K):
    if name in LISTS:
        first = args[0] if args else None
        ks = [K.of(a) for a in first.args] if first is not None and first.op in ("tuple", "list") else []
        if first is not None and first.op not in ("tuple", "list") and K.of(first)[0] == "seq":
            ks = [K.of(first)[1]]
        if name in ("broadcast_arrays", "meshgrid"):
            ks = [K.elem(a.args[0]) if a.op == "star" else K.of(a) for a in args]
        for k in ks or [None]:
            if k and k[0] == "np" or any(may_be_numpy(K, a) for a in args if a.op != "const"):
                c.bad("no mixing of array libraries", f"{fn_of(e)}:{name}", f"a NumPy array is given to xp.{name}", e.loc)
        return
    if name in CREATE:
        return
    arrs = args[:3] if name in ("where",) else args[:2] if name in BINARY else args[:1]
    ks = [K.of(a) for a in arrs]
    for a, k in zip(arrs, ks):
        if may_be_numpy(K, a):
            c.bad("no mixing of array libraries", f"{fn_of(e)}:{name}", f"the NumPy array {show(a, 2)} is given to xp.{name}", e.loc)
    if name in BINARY - {"where", "clip"}:
        if len(ks) == 2 and all(k[0] == "py" or k[0] == "seq" for k in ks):
            c.bad("arguments are arrays", f"{fn_of(e)}:{name}", f"xp.{name} is given no array", e.loc)
    elif ks and (ks[0][0] == "py" or ks[0][0] == "seq" and args[0].op in ("list", "tuple", "listof")):
        c.bad("arguments are arrays", f"{fn_of(e)}:{name}", f"xp.{name} is given {show(args[0], 2)}, which is not an array", e.loc)
    if name in ("sqrt", "exp", "expm1", "log", "log1p", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
                "tanh", "atan2", "hypot", "mean", "std", "var", "real", "imag", "conj") and ks:
        for a, k in zip(arrs, ks):
            if k[0] == "xp" and k[1] in ("i", "b"):
                c.bad("element types agree", f"{fn_of(e)}:{name}", f"xp.{name} is given the non-floating array {show(a, 2)}", e.loc)


def types(c, n, a, b, cons):
    if n.op == "cmp" or n.data in ("&", "|", "^", "is", "is not", "in", "not in", "<<", ">>"):
        return
    if None in (a[1], b[1]):
        return
    da, db = a[1], b[1]
    msg = None
    if a[0] == b[0] == "xp":
        if {da, db} & {"i", "b"} and da != db:
            msg = "operands of different kinds are not promoted by the standard"
        elif da == db == "b":
            msg = "arithmetic on truth values is not in the standard"
    else:
        arr, sc = (da, db) if a[0] == "xp" else (db, da)
        if arr == "b" or arr == "i" and sc in ("f", "c") or arr == "f" and sc == "b":
            msg = "the Python number is not promoted with the array by the standard"
    if msg is None and n.data == "/" and "i" in (da, db) and a[0] == "xp" and da == "i":
        msg = "division of integer arrays is not in the standard"
    if msg:
        c.bad("element types agree", at(n, cons), f"{show(n, 3)}: {msg}", n.loc)


def discarded(c, p):
    """array_api_extra.at(...).set(...) returns the array; the argument may be immutable."""
    ops = {"set", "add", "subtract", "multiply", "divide", "power", "min", "max"}
    n = 0
    for m, cls, fn, prefix in p.all_functions():
        for st in ast.walk(fn):
            for x in ([st.value] if isinstance(st, ast.Expr) else []):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ops:
                    b = x.func.value
                    if isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "at" or \
                            isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "at":
                        c.bad("updates are used", f"{m.name}:{prefix}", f"the result of {ast.unparse(x)[:60]} is discarded", (m.rel, x.lineno, prefix))
            if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr == "at":
                n += 1
    c.ok("updates are used", "package", f"{n} functional updates")
