"""Comparing the package with reference programs as exact expressions.

A driver (spec program that uses the package's public interface) and a reference are evaluated
symbolically over the same parameter nodes in one graph; every component of their results is
compared in exact algebra.  Equal normal forms hold for every input.  Different normal forms are
reported only if every atom of the package's value is understood (a parameter or an operation the
reference speaks about); anything else is undecided.
"""

from __future__ import annotations

from . import bisim
from .alg import Alg, case_split
from .interp import Config, analyse
from .ir import Graph, show
from .util import HP, UX, symbols, with_specs


def leaves(n, path=()):
    if n.op in ("tuple", "list") and n.args and not any(a.op == "star" for a in n.args):
        for i, a in enumerate(n.args):
            yield from leaves(a, path + (i,))
    else:
        yield path, n


def at(g, n, path):
    for i in path:
        n = g.index(n, g.const(i))
    return n


def compare(c, module, run, ref, rule, name, names=None, alg=None, ok=None, anchor=None, notnull=True,
            primitives=(), prims=(HP, UX), split=0, bind=None, noneargs=(), alarm=True, backend=None, primitive_prefix=(), structural=False):
    """Compare spec programs run and ref of specs/<module>.py.  Returns number of disagreements."""
    p = with_specs(c.project, module)
    g = Graph()
    mod = f"spec_{module}"
    q = f"{mod}:{ref}"
    r = p.find_func(q)
    nn = {x.arg for x in r[2].args.args + r[2].args.kwonlyargs} - set(noneargs)
    b = symbols(p, g, q, notnull=nn if notnull is True else set(notnull))
    for k, v in (bind or {}).items():
        b[k] = v(g) if callable(v) else g.const(v)

    def cfg():
        return Config(primitives=set(primitives), primitive_prefix=list(prims) + list(primitive_prefix), notnull=set(nn),
                      **({"backend": backend} if backend else {}))
    rr = analyse(p, q, cfg(), bind=dict(b), graph=g)
    oo = analyse(p, f"{mod}:{run}", cfg(), bind=dict(b), graph=g)
    c.count(oo)
    loc = None
    if anchor:
        f = p.find_func(anchor)
        if f is not None:
            loc = (f[0].rel, f[2].lineno, anchor.split(":")[1])
    mk = alg or (lambda a: Alg(assume=a))
    ok = ok or (lambda n, node: not n.startswith(("phi", "where", "masked", "update", "comp", "ucall", "listof", "append")) if n != "leaf"
                else (node is not None and node.op in ("param", "const")))
    raises = [e for e in oo.events if e.kind == "raise"]
    if oo.result is None or oo.result.op == "never":
        c.unk(rule, name, f"no value: {oo.broken or [e.info for e in raises][:2]}", loc)
        return
    for k, (path, y) in enumerate(leaves(rr.result)):
        nm = f"{name}:{names[k]}" if names else (f"{name}:{'.'.join(map(str, path))}" if path else name)
        x = at(g, oo.result, path)
        if x is y:
            c.ok(rule, nm, show(y, 3)[:160], loc)
            continue
        same, why, definite = bisim.compare(oo, x, rr, y)
        if same:
            c.ok(rule, nm, f"same construction: {show(y, 3)[:140]}", loc)
            continue
        if definite and alarm and not (oo.broken or oo.gaps or rr.broken or rr.gaps) and structural:
            c.bad(rule, nm, f"is {show(x, 4)[:200]}: {why}", loc)
            continue
        verdict, detail = True, ""
        for a, A, (u, v) in case_split([x, y], limit=split, mk=mk):
            if A.eq(u, v):
                detail = detail or A.show(v)[:160]
                continue
            cond = ", ".join(f"{show(g.nodes[i], 3)} is {t}" for i, t in a.items())
            if not alarm or oo.broken or oo.gaps or rr.broken or rr.gaps or not A.understood(u, ok) or not A.differ(u, v, [(g.nodes[i], t) for i, t in a.items()]):
                verdict, detail = None, f"{oo.broken or oo.gaps[:1] or A.show(u)[:240]} {cond}"
                break
            verdict, detail = False, f"is {A.show(u)[:300]} instead of {A.show(v)[:300]}" + (f" when {cond}" if cond else "")
            break
        c.decide(verdict, rule, nm, detail, loc)
