"""Which parameters influence what a function returns or does (over-approximation)."""

from __future__ import annotations

import ast
import itertools

from .interp import Config, analyse
from .util import HP, UX, anntokens

EFFECTS = {"raise", "warn", "attr_write", "attr_init", "mutate", "yield", "mcall", "assert", "next", "draw", "ucall"}
MAXCFG = 64
WRITES = ("savez", "savez_compressed", "save", "savetxt", "tofile", "dump", "write", "writelines")


def outside(f):
    """Whether a function that is not defined here can do something besides returning a value."""
    return f in ("builtins.open", "builtins.print", "builtins.setattr") or not f.startswith(("array_api", "builtins.", "?xp"))


def closure(it, roots):
    """Nodes that influence *roots*: data, conditions of choices, and control of loops."""
    seen = {}
    stack = [r for r in roots if r is not None]
    loops_seen = set()

    def loop(k):
        if k in loops_seen:
            return
        loops_seen.add(k)
        lp = it.loops.get(k)
        if lp is None:
            return
        for x in (lp.iter, lp.cond):
            if x is not None:
                stack.append(x)
        for pc in lp.exits:
            stack.extend(c for c, _ in pc)

    heap = it.state.heap
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        stack.extend(n.args)
        if n.back is not None:
            stack.append(n.back)
        d = n.data
        if n.op in ("mu", "elem", "relem", "counter", "listof", "comp", "update", "append", "popped"):
            k = d[0] if isinstance(d, tuple) and d else d
            if isinstance(k, int) and k in it.loops:
                loop(k)
        if n.op == "ref":
            v = heap.get(d if not isinstance(d, tuple) else d[0])
            if isinstance(v, dict):
                stack.extend(x for x in v.values() if hasattr(x, "op"))
        if n.op in ("gen", "closure"):
            for e in it.events:
                if e.kind == "yield":
                    stack.extend(value_nodes(e))
    return seen


def value_nodes(e):
    out = [c for c, _ in e.pc]
    if e.node is not None:
        out.append(e.node)
    for v in e.info.values():
        if hasattr(v, "op"):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            out.extend(x for x in v if hasattr(x, "op"))
        elif isinstance(v, dict):
            out.extend(x for x in v.values() if hasattr(x, "op"))
    return out


def loop_nodes(it, e):
    out = []
    for k in e.loops:
        lp = it.loops.get(k)
        if lp is not None:
            out.extend(x for x in (lp.iter, lp.cond) if x is not None)
    return out


def params_of(project, q):
    m, cls, fn = project.find_func(q)
    a = fn.args
    decos = [ast.unparse(d) for d in fn.decorator_list]
    names = []
    pos = a.posonlyargs + a.args
    defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    for i, (p, d) in enumerate(zip(pos, defaults)):
        if i == 0 and cls is not None and "staticmethod" not in decos:
            continue
        names.append((p, d))
    names += list(zip(a.kwonlyargs, a.kw_defaults))
    extra = [p.arg for p in (a.vararg, a.kwarg) if p is not None]
    return names, extra


def options(project, q):
    out = []
    names, _ = params_of(project, q)
    for p, d in names:
        if isinstance(d, ast.Constant) and d.value is None and p.arg != "xp":
            out.append((p.arg, ("none", "given")))
        elif isinstance(d, ast.Constant) and isinstance(d.value, bool) or anntokens(p.annotation) == ["bool"]:
            out.append((p.arg, (False, True)))
        elif p.annotation is not None and ast.unparse(p.annotation).startswith("Literal["):
            vals = [c.value for c in ast.walk(p.annotation) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
            out.append((p.arg, tuple(vals)))
    return out


def product(opts):
    n = 1
    for _, v in opts:
        n *= len(v)
    if n <= MAXCFG:
        return [dict(zip([o for o, _ in opts], c)) for c in itertools.product(*[v for _, v in opts])]
    base = {o: v[0] for o, v in opts}
    full = {o: v[-1] for o, v in opts}
    out = [base, full]
    for o, v in opts:
        for x in v:
            for b in (base, full):
                c = dict(b)
                c[o] = x
                if c not in out:
                    out.append(c)
    return out


def configs(project, q):
    """Combinations of optional arguments; a flag is left open when its own influence is wanted."""
    opts = options(project, q)
    out = product(opts)
    for o, v in opts:
        if v[0] != "none":
            out += [dict(c, **{o: "open"}) for c in product([x for x in opts if x[0] != o])]
    return out


def key(c):
    return ",".join(f"{k}={v}" for k, v in sorted(c.items()))


def influence(project, q, cfg, backend="numpy"):
    """(parameters influencing results, parameters influencing anything, interpretation)."""
    bind = {k: (None if v == "none" else v) for k, v in cfg.items() if v not in ("given", "open")}
    notnull = {k for k, v in cfg.items() if v == "given"}
    it = analyse(project, q, Config(primitive_prefix=[HP, UX] if not q.startswith((HP, UX)) else (), notnull=notnull, backend=backend), bind=bind)
    roots = [it.result] if it.result is not None else []
    for e in it.events:
        if e.kind == "yield":
            roots += value_nodes(e) + loop_nodes(it, e)
    res = names(closure(it, roots))
    eff = list(roots)
    for e in it.events:
        if e.kind in EFFECTS or e.kind == "nscall" and e.info["name"] in WRITES or e.kind == "extcall" and outside(str(e.info.get("fn"))):
            eff += value_nodes(e) + loop_nodes(it, e)
    if getattr(it, "selfref", None) is not None:
        eff.append(it.selfref)
    return res, names(closure(it, eff)), it


def names(seen):
    return {n.data[1] for n in seen.values() if n.op == "param"}
