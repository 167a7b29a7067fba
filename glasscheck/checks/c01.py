"""Caller-owned objects are never modified.

Effect and alias analysis: every entry point of the package is expanded into a
value-dependence graph with all helpers inlined; every operation that writes
into existing storage (augmented assignment, item or attribute assignment,
deletion, mutating methods, out=/inplace=/at() updates) is an obligation: the
set of storage roots its target may share memory with, computed through views,
conversions that do not copy, containers, branches, loops and retained object
state, must not contain an object the caller passed in.
"""

from ..interp import Config, analyse
from ..ir import show
from ..util import HP, entries, immutable_ann, is_protocol, short

ASSUMPTIONS = [
    "Arithmetic, reductions and constructors of the array libraries return new storage; reshape, basic indexing, "
    "asarray without copy, broadcasting and similar may return views.",
    "User-supplied callables may return their arguments; methods of user objects return new values.",
]

VIEW_CALLS = {"asarray", "reshape", "moveaxis", "broadcast_to", "broadcast_arrays_item", "expand_dims", "squeeze",
              "matrix_transpose", "permute_dims", "flip", "real", "imag", "atleast_1d", "atleast_2d", "atleast_nd",
              "ravel", "swapaxes", "transpose", "asanyarray", "ascontiguousarray", "view", "from_dlpack", "rollaxis",
              "broadcast_arrays", "diagonal", "linalg.diagonal", "split", "array_split", "unstack", "nan_to_num_",
              "require", "asfortranarray", "unique_all_"}
VIEW_METHODS = {"reshape", "view", "ravel", "squeeze", "transpose", "swapaxes", "get", "values", "items", "keys",
                "__getitem__", "diagonal", "setdefault", "pop", "popitem", "popleft", "to_device"}
VIEW_ATTRS = {"T", "mT", "real", "imag", "flat", "base", "data"}
SCALAR_ATTRS = {"shape", "size", "ndim", "dtype", "__name__", "device", "itemsize", "nbytes", "__class__"}


class Roots:
    def __init__(self, it, owned=None):
        self.it = it
        self.memo = {}
        self.owned = owned or {}

    def of(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        self.memo[n.id] = frozenset()
        while True:
            # fixed point over loop-carried values
            r = self.calc(n)
            if r == self.memo[n.id]:
                return r
            self.memo = {k: v for k, v in self.memo.items() if v} if n.op == "mu" else self.memo
            self.memo[n.id] = r
            if n.op != "mu":
                return r

    def union(self, ns):
        out = frozenset()
        for x in ns:
            out |= self.of(x)
        return out

    def calc(self, n):
        op = n.op
        if op == "param":
            if immutable_ann(n.meta.get("ann") if n.meta else None):
                return frozenset()
            return frozenset({("param", n.data[1])})
        if op == "extarg":
            return frozenset()
        if op == "attr0":
            o = n.args[0]
            cls = self.it.objs[o.data]["cls"] if o.op == "ref" and self.it.objs[o.data]["kind"] == "inst" else "?"
            return frozenset({("field", cls, n.data)})
        if op == "attr":
            if n.data in SCALAR_ATTRS:
                return frozenset()
            return self.of(n.args[0])
        if op == "index":
            x, i = n.args
            if self.copying_index(i):
                return frozenset()
            return self.of(x)
        if op in ("phi",):
            return self.union(n.args[1:])
        if op == "mu":
            return self.of(n.args[0]) | (self.of(n.back) if n.back is not None else frozenset())
        if op == "update":
            return self.of(n.args[0])
        if op in ("elem", "popped", "star", "masked", "without", "reordered", "opt", "kwget", "enter"):
            return self.of(n.args[0])
        if op in ("alt",):
            return self.union(n.args)
        if op == "clsattr":
            return frozenset({("global", f"{show(n.args[0], 1)}.{n.data}")})
        if op in ("global",):
            return frozenset({("global", str(n.data))})
        if op == "new":
            return frozenset({("new", n.id)})
        if op == "ref":
            k = self.it.objs.get(n.data, {}).get("kind")
            if k == "inst" and self.it.objs[n.data].get("symbolic"):
                return frozenset({("self",)})
            if k in ("list", "deque", "set", "dict"):
                return frozenset()
            return frozenset()
        if op in ("tuple", "list", "listof", "dict", "append", "prepend", "gen"):
            # a container built here; its elements keep their roots
            return self.union(n.args)
        if op == "comp":
            return self.of(n.args[0])
        if op == "ucall":
            own = frozenset({("param", "the value returned by " + show(n.args[0], 1))}) \
                if n.args[0].op in ("param", "attr0", "phi", "attr", "kwget") else frozenset()
            return self.union(n.args[1:]) | own
        if op == "partial":
            return self.union(n.args[1:])
        if op == "call":
            f, names = n.data
            ns, _, base = f.partition(".")
            kw = dict(zip(names, n.args))
            if ns in ("xp", "np", "jnp"):
                if base in ("array", "astype", "asarray"):
                    c = kw.get("copy")
                    if c is not None and c.op == "const" and c.data is True:
                        return frozenset()
                    if base in ("array", "astype") and not (c is not None and c.op == "const" and c.data is False):
                        return frozenset()
                    return self.of(n.args[0]) if n.args else frozenset()
                if base in VIEW_CALLS and n.args:
                    return self.of(n.args[0])
                return frozenset()
            if ns == "hp":
                return frozenset()
            if f in ("builtins.max", "builtins.min", "builtins.getattr"):
                return self.union(n.args)
            if f in ("builtins.list", "builtins.tuple", "builtins.reversed", "builtins.zip", "builtins.enumerate",
                     "builtins.sorted", "builtins.iter", "builtins.dict", "builtins.next", "builtins.filter",
                     "itertools.chain", "itertools.pairwise", "itertools.islice", "itertools.cycle"):
                return self.union(n.args)
            return frozenset()
        if op == "mcall":
            if n.data[0] in VIEW_METHODS:
                return self.of(n.args[0])
            b = n.args[0]
            if (b.op in ("attr0", "attr") and b.data == "cosmo") or (b.op == "param" and b.data[1] == "cosmo"):
                return frozenset({("param", f"the value returned by cosmo.{n.data[0]}()")})
            return frozenset()
        return frozenset()

    def copying_index(self, i):
        """Index by a mask or an integer array: a copy."""
        if i.op == "cmp" or (i.op == "bin" and i.data in "&|^") or i.op == "not":
            return True
        if i.op == "un" and i.data == "~":
            return True
        if i.op == "call" and i.data[0].split(".")[-1] in ("nonzero", "argsort", "where", "flatnonzero", "isfinite",
                                                            "isnan", "arange", "searchsorted", "isin", "logical_and",
                                                            "ang2pix", "argwhere", "greater", "less"):
            return True
        if i.op == "mu":
            return self.copying_index(i.args[0])
        if i.op == "phi":
            return self.copying_index(i.args[1]) and self.copying_index(i.args[2])
        if i.op == "list" or i.op == "listof":
            return True
        if i.op == "tuple":
            return any(self.copying_index(x) for x in i.args)
        return False


def scalar(n):
    """Certainly an immutable Python or array scalar."""
    if n.op in ("const", "counter", "relem", "cmp", "not"):
        return True
    if n.op == "attr" and n.data in SCALAR_ATTRS:
        return True
    return False


def owned_fields(project, ents):
    """Fields that may hold an object the caller passed in, per class (a fixed point)."""
    owned = {}
    stores = []
    for q in ents:
        r = project.find_func(q)
        if r is None or r[1] is None:
            continue
        it = analyse(project, q, Config(maxdepth=25))
        R = Roots(it)
        for e in it.events:
            if e.kind in ("attr_write", "attr_init"):
                o = e.node
                if o.op == "ref" and it.objs[o.data]["kind"] == "inst":
                    cls = it.objs[o.data]["cls"]
                    v = e.info["value"]
                    if isinstance(v, str):
                        continue
                    for rt in R.of(v):
                        if o is getattr(it, "selfref", None) or rt[0] == "field":
                            stores.append((cls, e.info["attr"], rt, e))
    for m in project.modules.values():
        for b in m.bind.values():
            if b[0] == "class":
                for d in b[1].decorator_list:
                    if "dataclass" in __import__("ast").unparse(d):
                        for st in b[1].body:
                            if st.__class__.__name__ == "AnnAssign" and not immutable_ann(st.annotation):
                                owned[(f"{m.name}:{b[1].name}", st.target.id)] = f"dataclass field {st.target.id}"
    changed = True
    while changed:
        changed = False
        for cls, attr, rt, e in stores:
            if (cls, attr) in owned:
                continue
            if rt[0] == "param" or (rt[0] == "field" and (rt[1], rt[2]) in owned):
                owned[(cls, attr)] = f"{'argument ' + rt[1] if rt[0] == 'param' else 'field ' + rt[2]} stored at {e.where()}"
                changed = True
    return owned


STATEFUL = {"rng", "urng"}


def check(c):
    p = c.project
    ents = [q for q in entries(p) if not is_protocol(p, q)]
    owned = owned_fields(p, ents)
    seen = set()
    nmut = 0
    for q in ents:
        for cfg in (Config(), Config(primitive_prefix=(HP,))):
            # ``inplace=True`` is the caller's own request: analyse the default
            fn = p.find_func(q)[2].args
            has = {a.arg for a in fn.args + fn.kwonlyargs}
            it = analyse(p, q, cfg, {"inplace": False} if "inplace" in has else None)
            c.count(it)
            R = Roots(it)
            for e in it.events:
                if e.kind != "mutate":
                    continue
                t = e.node
                if t is None or scalar(t):
                    continue
                nmut += 1
                how = e.info.get("how")
                roots = R.of(t)
                hits = []
                for r in roots:
                    if r[0] == "param" and r[1] not in STATEFUL:
                        hits.append(f"argument '{r[1]}' of {short(q)}")
                    elif r[0] == "field" and (r[1], r[2]) in owned:
                        hits.append(f"object kept in {short(r[1])}.{r[2]} ({owned[(r[1], r[2])]})")
                key = (e.loc, how, tuple(sorted(hits)))
                if key in seen:
                    continue
                seen.add(key)
                cons = f"{e.loc[0]}:{e.loc[2]}:{e.info.get('target')}"
                if hits:
                    c.bad("no write to caller-owned object", cons,
                          f"{how} may write into {', '.join(sorted(hits))}: {show(t, 3)}", e.loc)
                else:
                    c.ok("no write to caller-owned object", cons, f"{how} on {show(t, 2)[:80]}", e.loc)
    # positive self-example: the rule must fire on a write to an argument
    c.note(f"{nmut} writes examined in {len(ents)} entry points; fields that keep caller objects: "
           f"{sorted(short(a) + '.' + b for a, b in owned)}")
