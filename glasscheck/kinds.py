"""Array-library and element-type domain over a value-flow graph.

A value is (lib, dt) with lib in {'xp', 'np', 'py', None} -- array of the caller's library,
NumPy array, plain Python value, unknown -- and dt in {'i', 'f', 'c', 'b', None}.  Containers are
('seq', elementkind).  None means unknown; a report needs definite kinds on both sides.
"""

from __future__ import annotations

import ast

from .arrayapi import SIG
from .util import anntokens

UNK = (None, None)
PY = ("py", None)
PYRET = {"finfo", "iinfo", "isdtype", "broadcast_shapes", "result_type", "can_cast", "ndindex"}
KEEP = {"abs", "reshape", "expand_dims", "squeeze", "moveaxis", "permute_dims", "matrix_transpose", "flip", "roll", "broadcast_to",
        "round", "clip", "sum", "prod", "max", "min", "cumulative_sum", "take", "repeat", "tile", "diff", "sort", "negative",
        "positive", "sign", "square", "floor", "ceil", "trunc", "asarray", "zeros_like", "ones_like", "empty_like", "full_like",
        "unstack", "tril", "triu", "linalg.diagonal", "conj", "stack", "concat", "broadcast_arrays_item", "pad", "union1d", "copy",
        "unique_values", "maximum", "minimum"}
FLOATF = {"sqrt", "exp", "expm1", "log", "log1p", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
          "asinh", "acosh", "atanh", "mean", "std", "var"}
FLOAT2 = {"atan2", "hypot", "nextafter", "copysign", "logaddexp"}
BOOLF = {"isnan", "isfinite", "isinf", "any", "all", "signbit", "logical_not", "logical_and", "logical_or", "logical_xor"}
INTF = {"argmax", "argmin", "argsort", "searchsorted", "count_nonzero", "nonzero"}
DTYPES = {"float64": "f", "float32": "f", "complex128": "c", "complex64": "c", "bool": "b", "int64": "i", "int32": "i", "int16": "i",
          "int8": "i", "uint8": "i", "uint16": "i", "uint32": "i", "uint64": "i"}
ANN = {"FloatArray": "f", "IntArray": None, "ComplexArray": "c", "AnyArray": None}


def join(a, b):
    if a == b:
        return a
    if isinstance(a[0], tuple) or isinstance(b[0], tuple) or a[0] == "seq" or b[0] == "seq":
        if a[0] == b[0] == "seq":
            return ("seq", join(a[1], b[1]))
        return UNK
    return (a[0] if a[0] == b[0] else None, a[1] if a[1] == b[1] else None)


def promote(dts):
    if None in dts:
        return None
    for k in "cfib":
        if k in dts:
            return k
    return None


class Kinds:
    def __init__(self, it, arrays="xp"):
        self.it = it
        self.memo = {}
        self.busy = set()
        self.arrays = arrays
        # loop-carried values: least fixed point from the values on entry
        mus = [n for n in it.g.nodes if n.op == "mu"]
        self.mu = {n.id: None for n in mus}
        for _ in range(12):
            self.memo = {}
            new = {}
            for n in mus:
                k = self.of(n.args[0])
                if n.back is not None:
                    k = join(k, self.of(n.back))
                new[n.id] = k
            if new == self.mu:
                break
            self.mu = new
        else:
            self.mu = {n.id: UNK for n in mus}
        self.memo = {}

    def of(self, n):
        if n is None:
            return UNK
        if n.id in self.memo:
            return self.memo[n.id]
        if n.id in self.busy:
            return UNK
        self.busy.add(n.id)
        try:
            r = self._of(n)
        finally:
            self.busy.discard(n.id)
        self.memo[n.id] = r
        return r

    def elem(self, n):
        """Kind of an element of n."""
        k = self.of(n)
        if k[0] == "seq":
            return k[1]
        if k[0] in ("xp", "np"):
            return k
        return UNK

    def ann(self, ann):
        t = anntokens(ann)
        if not t:
            return UNK
        if all(x in ANN or x == "None" for x in t):
            ks = {ANN[x] for x in t if x in ANN}
            return (self.arrays, ks.pop() if len(ks) == 1 else None) if any(x in ANN for x in t) else UNK
        if t == ["int"] or t == ["int", "None"]:
            return ("py", "i")
        if t == ["float"] or t == ["float", "None"]:
            return ("py", None)
        if t == ["AngularPowerSpectra"]:
            return ("seq", (self.arrays, None))
        if len(t) == 1 and t[0].startswith(("list[", "Sequence[", "Iterable[", "Iterator[")):
            inner = t[0][t[0].index("[") + 1:-1]
            if "," not in inner:
                return ("seq", self.ann(inner))
        return UNK

    def dtype(self, n, default=None):
        if n is None or n.op == "const" and n.data is None:
            return default
        if n.op == "nsfn":
            return DTYPES.get(n.data[1])
        if n.op == "ext":
            return {"builtins.float": "f", "builtins.int": "i", "builtins.complex": "c", "builtins.bool": "b"}.get(n.data)
        if n.op == "attr" and n.data == "dtype":
            return self.of(n.args[0])[1]
        return None

    def _of(self, n):
        op = n.op
        if op == "const":
            v = n.data
            if isinstance(v, bool):
                return ("py", "b")
            if isinstance(v, int):
                return ("py", "i")
            if isinstance(v, float):
                return ("py", "f")
            if isinstance(v, complex):
                return ("py", "c")
            return PY
        if op == "ext":
            return ("py", "f") if n.data in ("nan",) or str(n.data).startswith("math.") else UNK
        if op == "param":
            return self.ann(n.meta.get("ann") if n.meta else None)
        if op in ("tuple", "list"):
            if not n.args:
                return ("seq", UNK)
            k = self.of(n.args[0])
            for a in n.args[1:]:
                k = join(k, self.of(a))
            return ("seq", k)
        if op in ("listof", "comp", "gen"):
            return ("seq", self.of(n.args[0])) if n.args else UNK
        if op == "append":
            c, e = self.of(n.args[0]), self.of(n.args[1])
            if c[0] == "seq":
                return ("seq", e if c[1] == UNK and n.args[0].op in ("tuple", "list") and not n.args[0].args else join(c[1], e))
            return UNK
        if op in ("bin", "cmp"):
            if op == "bin" and n.data == "%" and n.args[0].op == "const" and isinstance(n.args[0].data, str):
                return PY
            a, b = self.of(n.args[0]), self.of(n.args[1])
            if a[0] == "seq" or b[0] == "seq":
                return a if a[0] == "seq" and op == "bin" and n.data == "+" else UNK
            lib = None
            if "xp" in (a[0], b[0]):
                lib = "xp"
            elif "np" in (a[0], b[0]):
                lib = "np"
            elif a[0] == b[0] == "py":
                lib = "py"
            if op == "cmp":
                return (lib, "b")
            dt = promote([a[1], b[1]])
            if n.data == "/" and dt in ("i", "b"):
                dt = "f"
            if n.data == "**" and b[0] == "py" and b[1] == "f" and dt == "i":
                dt = "f"
            return (lib, dt)
        if op == "un":
            return self.of(n.args[0])
        if op == "not":     # a != b is the negation of a == b
            return self.of(n.args[0]) if n.args[0].op == "cmp" else ("py", "b")
        if op == "phi":
            return join(self.of(n.args[1]), self.of(n.args[2]))
        if op == "mu":
            v = self.mu.get(n.id)
            return v if v is not None else self.of(n.args[0])
        if op == "update":
            return self.of(n.args[0])
        if op in ("index", "elem", "masked", "star", "popped"):
            b = self.of(n.args[0])
            if b[0] == "seq":
                if op == "index" and n.args[1].op == "slice":
                    return b
                if op == "index" and n.args[0].op in ("tuple", "list") and n.args[1].op == "const" and \
                        isinstance(n.args[1].data, int) and -len(n.args[0].args) <= n.args[1].data < len(n.args[0].args):
                    return self.of(n.args[0].args[n.args[1].data])
                return b[1]
            return b if b[0] in ("xp", "np") else UNK
        if op in ("relem", "counter"):
            return ("py", "i")
        if op == "attr":
            b = self.of(n.args[0])
            if n.data in ("ndim", "size"):
                return ("py", "i")
            if n.data == "shape":
                return ("seq", ("py", "i"))
            if n.data == "dtype":
                return PY
            if n.data in ("T", "mT"):
                return b
            if n.data in ("za", "wa"):
                return (self.arrays, "f")
            if n.data in ("real", "imag"):
                return (b[0], "f")
            return UNK
        if op == "mcall":
            b = self.of(n.args[0])
            if b[0] in ("xp", "np"):
                return (b[0], {"sum": b[1], "max": b[1], "min": b[1]}.get(n.data[0]))
            return UNK
        if op == "draw":
            src = n.args[0] if n.args else None
            return UNK if src is None else ("np", {"poisson": "i", "multinomial": "i"}.get(n.data[0] if isinstance(n.data, tuple) else "", "f"))
        if op == "call":
            return self.call(n)
        return UNK

    def call(self, n):
        fn, names = n.data
        pre, _, base = fn.partition(".")
        kw = dict(zip(names, n.args))
        if pre in ("xp", "np", "jnp"):
            lib = {"xp": "xp", "np": "np", "jnp": "xp"}[pre]
            if base in PYRET or base.startswith("random"):
                return PY if base in PYRET else UNK
            d = self.dtype(kw.get("dtype"))
            if d:
                return (lib, d)
            if "dtype" in kw and not (kw["dtype"].op == "const" and kw["dtype"].data is None):
                return (lib, None)
            first = self.of(n.args[0]) if n.args else UNK
            if base in ("zeros", "ones", "empty", "linspace", "eye"):
                return (lib, "f")
            if base == "full":
                return (lib, self.of(kw["fill_value"])[1] if "fill_value" in kw else None)
            if base == "arange":
                return (lib, promote([self.of(a)[1] for a in n.args]))
            if base == "asarray":
                x = n.args[0] if n.args else None
                if first[0] == "seq":
                    return (lib, first[1][1] if isinstance(first[1], tuple) else None)
                return (lib, first[1]) if x is not None else (lib, None)
            if base in ("stack", "concat"):
                return (lib, first[1][1] if first[0] == "seq" and isinstance(first[1], tuple) else None)
            if base in KEEP:
                return (lib, first[1] if first[0] != "seq" else None)
            if base in FLOATF:
                return (lib, "c" if first[1] == "c" else "f" if first[1] in ("f", "i") else None)
            if base in FLOAT2:
                return (lib, "f")
            if base in BOOLF:
                return (lib, "b")
            if base in INTF:
                return ("seq", (lib, "i")) if base == "nonzero" else (lib, "i")
            if base in ("real", "imag"):
                return (lib, "f")
            if base == "where":
                if len(n.args) == 3:
                    return (lib, promote([self.of(a)[1] for a in n.args[1:]]))
                return (lib, None)
            if base == "astype":
                return (lib, self.dtype(n.args[1]) if len(n.args) > 1 else None)
            if base in ("linalg.qr", "linalg.eigh", "linalg.svd", "unique_all", "meshgrid", "broadcast_arrays", "linalg.slogdet",
                        "unique_counts", "unique_inverse", "tril_indices", "linalg.lstsq", "unstack"):
                return ("seq", (lib, None))
            if base == "vectorize" or base not in SIG and lib == "xp":
                return UNK if lib == "xp" else ("np", None)
            return (lib, None)
        if pre == "xpx":
            ks = [self.of(a) for a in n.args]
            libs = {k[0] for k in ks if k[0] in ("xp", "np")}
            return (libs.pop() if len(libs) == 1 else None, ks[0][1] if base in ("pad",) and ks[0][0] != "seq" else None)
        if pre == "math":
            return ("py", "i" if base in ("floor", "ceil", "trunc") else "f")
        if pre == "builtins":
            if base in ("int", "len"):
                return ("py", "i")
            if base == "float":
                return ("py", "f")
            if base == "complex":
                return ("py", "c")
            if base in ("bool", "isinstance", "callable", "hasattr"):
                return ("py", "b")
            if base in ("str", "repr"):
                return PY
            if base in ("min", "max"):
                ks = [self.of(a) for a in n.args]
                k = ks[0]
                for x in ks[1:]:
                    k = join(k, x)
                return k if k[0] != "seq" else k[1] if len(ks) == 1 else UNK
            if base == "abs":
                return self.of(n.args[0])
            return UNK
        if pre in ("healpy", "healpix"):
            if base in ("alm2map", "almxfl", "ang2pix", "map2alm", "pixwin", "query_strip", "rotate_map_pixel") or ".rotate_map" in base:
                return ("np", None)
            if base in ("alm2map_spin", "ang2vec", "randang"):
                return ("seq", ("np", None))
            return UNK
        # functions of the package that were not expanded
        q = {"hp": "glass.healpix:", "uxpx": "glass._array_api_utils:xp_additions."}.get(pre)
        q = q + base if q else fn
        f = self.it.p.find_func(q) if ":" in q else None
        if f is not None:
            ret = f[2].returns
            s = ast.unparse(ret) if ret is not None else ""
            has = any(self.of(a)[0] == "xp" or self.of(a)[0] == "seq" and self.of(a)[1][0] == "xp" for a in n.args)
            if s in ("int", "float", "bool"):
                return ("py", {"int": "i", "bool": "b"}.get(s))
            if "Array" in s:
                if s.startswith(("tuple", "list")):
                    return ("seq", ("xp", None)) if has else UNK
                return ("xp", ANN.get(s)) if has else UNK
        return UNK
