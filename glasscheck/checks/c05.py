"""Optional dependencies stay optional.

Import-closure analysis plus path-sensitive analysis of imports inside functions.
Obligations: (1) no module in the import closure of the package, nor any other module
except the two that are themselves an optional feature (JAX backend, cosmology
protocols), imports at module level a package outside the required dependencies of
pyproject.toml and the standard library, directly or through a feature module;
(2) every public function, analysed once for NumPy arrays and once for another array
library, reaches no import of an optional package, except FITS output, which reaches
only the FITS library; (3) no name bound only under TYPE_CHECKING is evaluated at run
time: in function bodies, default values, decorators, base classes, class bodies,
module bodies, and in annotations of modules that evaluate their annotations.
"""

import ast
import builtins
import re
import sys
import tomllib

from ..interp import Config, analyse
from ..ir import deps
from ..project import is_overload, is_type_checking
from ..util import entries, short

ASSUMPTIONS = ["numpy is present: the required dependencies healpy and healpix depend on it."]
FEATURES = {"glass.jax": {"jax"}, "glass.cosmology": {"cosmology"}}
ALLOWED = {"glass.user:write_catalog": {"fitsio"}, "glass.user:_FitsWriter": {"fitsio"}}


def required(root):
    with open(root / "pyproject.toml", "rb") as f:
        t = tomllib.load(f)
    out = {"numpy", "glass"}
    for d in t["project"]["dependencies"]:
        out.add(re.match(r"[A-Za-z0-9_.-]+", d).group(0).replace("-", "_").lower())
    return out


def is_std(n):
    return n in sys.stdlib_module_names


def handles_missing(h):
    if h.type is None:
        return True
    return any(n in ast.unparse(h.type) for n in ("ImportError", "ModuleNotFoundError", "Exception"))


def module_imports(m):
    """(dotted, name or None, node, protected) executed when the module is imported."""
    def walk(body, prot):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    yield a.name, None, st, prot
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    p = m.pkg().split(".")
                    p = p[: len(p) - (st.level - 1)]
                    base = ".".join(p + ([base] if base else []))
                for a in st.names:
                    yield base, a.name, st, prot
            elif isinstance(st, ast.If):
                if is_type_checking(st.test):
                    yield from walk(st.orelse, prot)
                else:
                    guard = prot or "find_spec" in ast.unparse(st.test) or "importlib" in ast.unparse(st.test)
                    yield from walk(st.body, guard)
                    yield from walk(st.orelse, guard)
            elif isinstance(st, ast.Try):
                p2 = prot or any(handles_missing(h) for h in st.handlers)
                yield from walk(st.body, p2)
                for h in st.handlers:
                    yield from walk(h.body, prot)
                yield from walk(st.orelse, prot)
                yield from walk(st.finalbody, prot)
            elif isinstance(st, ast.With):
                p2 = prot or any("suppress" in ast.unparse(i.context_expr) and
                                 re.search(r"ImportError|ModuleNotFoundError|Exception", ast.unparse(i.context_expr)) for i in st.items)
                yield from walk(st.body, p2)
            elif isinstance(st, ast.ClassDef):
                yield from walk(st.body, prot)
            elif isinstance(st, (ast.For, ast.While)):
                yield from walk(st.body, prot)
    yield from walk(m.tree.body, False)


def inner_modules(p, base, name):
    """Package modules run by importing base (and name from it)."""
    out = []
    parts = base.split(".")
    for i in range(1, len(parts) + 1):
        d = ".".join(parts[:i])
        if d in p.modules:
            out.append(d)
    if name and f"{base}.{name}" in p.modules:
        out.append(f"{base}.{name}")
    return out


def check(c):
    p = c.project
    req = required(p.root)
    # (1)
    graph = {}
    for mn, m in p.modules.items():
        graph[mn] = []
        for base, name, node, prot in module_imports(m):
            loc = (m.rel, node.lineno, mn)
            top = base.split(".")[0]
            if top == "glass":
                if not prot:
                    graph[mn] += [(x, loc) for x in inner_modules(p, base, name)]
                continue
            if top in req or is_std(top) or top == "__future__":
                c.ok("module-level imports are required or standard", f"{mn}:{base}", "", loc)
            elif prot:
                c.ok("module-level imports are required or standard", f"{mn}:{base}", "a missing package is tolerated", loc)
            elif mn in FEATURES and top in FEATURES[mn]:
                c.ok("module-level imports are required or standard", f"{mn}:{base}", "the module is the feature", loc)
            elif mn in FEATURES:
                c.unk("module-level imports are required or standard", f"{mn}:{base}", "", loc)
            else:
                c.bad("module-level imports are required or standard", f"{mn}:{base}",
                      f"importing {mn} requires {top}, which is not a required dependency", loc)
    for mn in p.modules:
        if mn in FEATURES:
            continue
        seen, work, hit = set(), [(mn, None)], None
        while work and not hit:
            x, _ = work.pop()
            for y, loc in graph.get(x, ()):
                if y in FEATURES:
                    hit = (y, x, loc)
                elif y not in seen:
                    seen.add(y)
                    work.append((y, loc))
        c.decide(hit is None, "no module needs an optional feature to be imported", mn,
                 f"{len(seen)} modules in its import closure" if not hit else f"{hit[1]} imports {hit[0]} at module level",
                 hit[2] if hit else None)
    # (2)
    for q in entries(p):
        if q.split(":")[0] in FEATURES:
            continue
        allow = next((v for k, v in ALLOWED.items() if q.startswith(k)), set())
        for backend in ("numpy", "array_api_strict"):
            it = analyse(p, q, Config(backend=backend))
            c.count(it)
            if it.broken:
                c.unk("calls import only what they need", f"{short(q)} with {backend}", it.broken)
                continue
            n = 0
            for e in it.events:
                if e.kind != "import":
                    continue
                top = e.info["module"].split(".")[0]
                names = [x for x in inner_modules(p, e.info["module"], e.info.get("name")) if x in FEATURES]
                n += 1
                if top == "glass" and not names:
                    continue
                if top in req - {"glass"} or is_std(top) or top in allow:
                    continue
                what = names[0] if names else top
                if guarded(e, what) or tolerated(p, e):
                    c.unk("calls import only what they need", f"{short(q)} with {backend}", f"import of {what} under a condition", e.loc)
                    continue
                c.bad("calls import only what they need", f"{short(q)} with {backend}",
                      f"a call with {backend} arrays imports {what}", e.loc)
            c.ok("calls import only what they need", f"{short(q)} with {backend}", f"{n} imports reached")
        it = analyse(p, q)
        for e in it.events:
            if e.kind == "typing_only":
                c.bad("type-checking names are not used at run time", f"{short(q)}:{e.info['name']}",
                      "the name is bound only while type checking", e.loc)
    # (3)
    for mn, m in p.modules.items():
        uses = list(run_time_names(m))
        for nm, node in uses:
            if nm in m.tc_bind and nm not in m.bind:
                c.bad("type-checking names are not used at run time", f"{mn}:{nm}",
                      "evaluated when the module is imported", (m.rel, node.lineno, mn))
        c.ok("type-checking names are not used at run time", mn,
             f"{len(uses)} names evaluated at import, {len(m.tc_bind)} names only for type checking")
    for m, cls, fn, prefix in p.all_functions():
        local = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                local.add(x.id)
            elif isinstance(x, ast.arg):
                local.add(x.arg)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                local |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                local.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                local.add(x.name)
        bad = [x for x in body_names(fn) if x.id in m.tc_bind and x.id not in m.bind and x.id not in local
               and not hasattr(builtins, x.id)]
        for x in bad:
            c.bad("type-checking names are not used at run time", f"{m.name}:{prefix}:{x.id}",
                  "the name is bound only while type checking", (m.rel, x.lineno, prefix))


def guarded(e, what):
    """A condition of the path that itself asks about the package."""
    key = what.split(".")[-1]
    for cnd, _ in e.pc:
        for n in deps([cnd]).values():
            if n.data is not None and key in str(n.data).lower():
                return True
    return False


def tolerated(p, e):
    """The import statement stands in a try block that handles a missing package."""
    for m in p.modules.values():
        if m.rel != e.loc[0]:
            continue
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and any(handles_missing(h) for h in t.handlers):
                for s in t.body:
                    if s.lineno <= e.loc[1] <= s.end_lineno:
                        return True
            if isinstance(t, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in t.items):
                if t.lineno <= e.loc[1] <= t.end_lineno:
                    return True
    return False


def names_in(node, ann):
    """Names loaded when the expression is evaluated."""
    if node is None:
        return
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            yield x


def body_names(fn):
    """Names loaded when the function runs; annotations of locals are never evaluated."""
    def walk(n):
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                yield from walk(n.value)
            if not isinstance(n.target, ast.Name):
                yield from walk(n.target)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if isinstance(n, ast.Lambda):
                yield from walk(n.body)
            for d in list(n.args.defaults) + [k for k in n.args.kw_defaults if k is not None]:
                yield from walk(d)
            return
        if isinstance(n, ast.If) and is_type_checking(n.test):
            for s in n.orelse:
                yield from walk(s)
            return
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("cast",) and n.args and \
                isinstance(n.args[0], ast.Constant):
            for a in n.args[1:]:
                yield from walk(a)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            yield n
        for ch in ast.iter_child_nodes(n):
            yield from walk(ch)
    for s in fn.body:
        yield from walk(s)


def run_time_names(m):
    """Names evaluated when the module is imported."""
    future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names)
                 for s in m.tree.body)

    def fn(n):
        for d in n.decorator_list:
            yield from names_in(d, False)
        for d in list(n.args.defaults) + [k for k in n.args.kw_defaults if k is not None]:
            yield from names_in(d, False)
        if not future:
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg):
                    yield from names_in(a.annotation, True)
            yield from names_in(n.returns, True)

    def walk(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from fn(st)
            elif isinstance(st, ast.ClassDef):
                for d in st.decorator_list + st.bases + [k.value for k in st.keywords]:
                    yield from names_in(d, False)
                yield from walk(st.body)
            elif isinstance(st, ast.AnnAssign):
                if not future:
                    yield from names_in(st.annotation, True)
                if st.value is not None:
                    yield from names_in(st.value, False)
            elif isinstance(st, ast.If):
                if is_type_checking(st.test):
                    yield from walk(st.orelse)
                else:
                    yield from names_in(st.test, False)
                    yield from walk(st.body)
                    yield from walk(st.orelse)
            elif isinstance(st, ast.Try):
                for b in (st.body, *[h.body for h in st.handlers], st.orelse, st.finalbody):
                    yield from walk(b)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                for x in ast.iter_child_nodes(st):
                    if isinstance(x, ast.expr):
                        yield from names_in(x, False)
                yield from walk(st.body)
            else:
                yield from names_in(st, False)
    # comprehension and lambda variables are local
    for x in walk(m.tree.body):
        yield x.id, x
