"""Shared helpers of the checks."""

from __future__ import annotations

import ast
import pathlib

from . import project as pj
from .interp import Config, analyse
from .ir import Graph, Node, deps, show

UX = "glass._array_api_utils:xp_additions."
HP = "glass.healpix:"
PRIM = (UX, HP)


def entries(project):
    """Public functions and methods, and the public methods of every class of the package."""
    out = []
    seen = set()
    for n, q in project.public_entries():
        if q is not None and q not in seen:
            seen.add(q)
            out.append(q)
    for m in project.modules.values():
        if m.name.startswith("spec_"):
            continue
        for name, b in m.bind.items():
            if b[0] == "class":
                for st in b[1].body:
                    if isinstance(st, ast.FunctionDef) and not pj.is_overload(st):
                        if st.name.startswith("_") and st.name not in ("__init__", "__call__", "__iter__", "__post_init__"):
                            continue
                        q = f"{m.name}:{b[1].name}.{st.name}"
                        if q not in seen:
                            seen.add(q)
                            out.append(q)
            elif b[0] == "def" and not name.startswith("_"):
                q = f"{m.name}:{name}"
                if q not in seen and m.name not in ("glass._types",):
                    seen.add(q)
                    out.append(q)
    return out


def is_protocol(project, q):
    r = project.find_func(q)
    if r is None or r[1] is None:
        return False
    return any("Protocol" in ast.unparse(b) for b in r[1].bases)


def require(project, q):
    if project.find_func(q) is None:
        raise pj.AnalysisBroken(f"anchor {q} not found")


def short(q):
    return q.replace("glass.", "", 1)


def anntokens(ann):
    if ann is None:
        return None
    s = ast.unparse(ann) if not isinstance(ann, str) else ann
    s = s.strip("'\"")
    out = []
    depth = 0
    cur = ""
    for ch in s:
        if ch in "[(":
            depth += 1
        if ch in "])":
            depth -= 1
        if ch == "|" and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


IMMUTABLE = {"int", "float", "complex", "bool", "str", "bytes", "None", "DTypeLike", "ModuleType"}


def immutable_ann(ann):
    t = anntokens(ann)
    if t is None:
        return False
    return all(x in IMMUTABLE or x.startswith(("Literal", "PathLike", "Callable")) for x in t)


def caseless_where(e):
    return f"{e.loc[0]}:{e.loc[1]} ({e.loc[2]})"


SPECS = pathlib.Path(__file__).resolve().parent / "specs"


def with_specs(project, *names):
    """Add the reference modules of the verifier under the names spec_<name>."""
    for n in names:
        if f"spec_{n}" not in project.modules:
            project.inject(f"spec_{n}", SPECS / f"{n}.py")
    return project


def symbols(project, graph, qual, notnull=()):
    """Parameter nodes of *qual*, to be shared between several evaluations in one graph."""
    m, cls, fn = project.find_func(qual)
    out = {}
    a = fn.args
    pos = a.posonlyargs + a.args
    defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    for p, d in list(zip(pos, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if cls is not None and p is pos[0] if pos else False:
            continue
        n = graph.mk("param", (), (qual, p.arg))
        if n.meta is None:
            n.meta = {"ann": p.annotation, "notnull": p.arg in notnull, "default": d, "name": p.arg}
        out[p.arg] = n
    return out
