"""Field transformations and their correlations are mutually consistent.

For every ordered pair of transformations the dispatching functions corr, icorr and dcorr are
evaluated symbolically with generic parameters.  In exact algebra: icorr composed with corr is the
identity in both orders of composition, dcorr is the symbolic derivative of corr, swapping the
fields with their parameters changes nothing, the three functions support the same pairs and end in
an exception for every other pair, never in a value.  The transformation and its correlation are
compared with the published closed forms, also at the parameter values that branches single out.
"""

from ..alg import Alg, frac
from ..interp import Config, analyse
from ..ir import Graph, show
from ..refs import compare
from ..util import HP, UX, symbols, with_specs

ASSUMPTIONS = ["Exact real arithmetic inside the domain: x / 2 lambda lambda' + (a a')^2 >= 0 and x + a a' >= 0 for squared normal "
               "fields, positive scale factors."]
KINDS = ("Normal", "Lognormal", "SquaredNormal")
PAIRS = {("Normal", "Normal"), ("Lognormal", "Normal"), ("Normal", "Lognormal"), ("Lognormal", "Lognormal"),
         ("SquaredNormal", "SquaredNormal")}
CORE = "glass.grf._core:"
PARAMS = {"a1", "l1", "a2", "l2", "x", "var"}


def generic(c):
    """Equality of parameters does not hold generically."""
    return False if c.op == "cmp" and c.data == "==" else None


def alg(a):
    return Alg(assume=a, decide=generic, fill=True)


def sentinel(n, seen=None):
    """NotImplemented or None reachable as the value itself."""
    if n.op == "phi":
        return any(sentinel(a) for a in n.args[1:])
    return (n.op == "ext" and n.data == "NotImplemented") or (n.op == "const" and n.data is None)


def check(c):
    p = with_specs(c.project, "pairs")

    def run(f, a, b, g, s=None):
        q = "spec_pairs:" + f
        if s is None:
            s = symbols(p, g, q, notnull=PARAMS)
            s["kind1"], s["kind2"] = g.const(a), g.const(b)
        it = analyse(p, q, Config(notnull=PARAMS, primitive_prefix=[HP, UX]), bind=dict(s), graph=g)
        c.count(it)
        return it, s

    support = {}
    for a in KINDS:
        for b in KINDS:
            for f in ("corr", "icorr", "dcorr"):
                it, _ = run("f" + f, a, b, Graph())
                f0 = p.find_func(CORE + f)
                loc = (f0[0].rel, f0[2].lineno, f) if f0 else None
                val = it.result is not None and it.result.op != "never"
                raises = any(e.kind == "raise" for e in it.events)
                known = not it.gaps and (val or raises)
                name = f"{f}({a}, {b})"
                if val and sentinel(it.result):
                    c.decide(None if it.gaps else False, "unsupported pair raises", name, f"returns {show(it.result, 3)[:120]}", loc)
                support[f, a, b] = val if known else None
                if (a, b) in PAIRS:
                    c.decide(None if not known else val, "pair is supported", name, "value" if val else "raises", loc)
                elif known and not val:
                    c.ok("unsupported pair raises", name, "every path ends in an exception", loc)
            s3 = [support[f, a, b] for f in ("corr", "icorr", "dcorr")]
            c.decide(None if None in s3 else len(set(s3)) == 1, "same pairs for value, inverse and derivative", f"{a} x {b}",
                     "supported" if s3[0] else "not supported")
    for a in KINDS:
        for b in KINDS:
            bind = {"kind1": a, "kind2": b}
            for f in ("corr", "icorr", "dcorr"):
                if support[f, a, b] is True and support[f, b, a] is True:
                    c.section(compare, c, "pairs", "f" + f, "s" + f, "swapping the fields changes nothing", f"{f}({a}, {b})", None,
                              alg=alg, split=4, bind=bind, anchor=CORE + f)
                elif None not in (support[f, a, b], support[f, b, a]) and support[f, a, b] != support[f, b, a]:
                    c.bad("swapping the fields changes nothing", f"{f}({a}, {b})", "supported in one order only")
            if support["corr", a, b] is True and support["icorr", a, b] is True:
                c.section(compare, c, "pairs", "there_and_back", "same", "inverse undoes correlation", f"icorr(corr) {a} x {b}", None,
                          alg=alg, split=4, bind=bind, anchor=f"glass.grf._transformations:{a}.icorr")
                c.section(compare, c, "pairs", "back_and_there", "same", "inverse undoes correlation", f"corr(icorr) {a} x {b}", None,
                          alg=alg, split=4, bind=bind, anchor=f"glass.grf._transformations:{a}.corr")
            if support["corr", a, b] is True and support["dcorr", a, b] is True:
                c.section(derivative, c, run, a, b)
            if (a, b) in PAIRS and support["corr", a, b] is True:
                c.section(compare, c, "pairs", "fcorr", f"ref_corr_{a}_{b}", "correlation of the transformed fields", f"{a} x {b}", None,
                          alg=alg, split=4, bind=bind, anchor=f"glass.grf._transformations:{a}.corr")
    for a in KINDS:
        g = Graph()
        it, s = run("apply", a, a, g)
        special = {}
        for n in g.nodes:
            if n.op == "cmp" and n.data == "==":
                for u, v in (n.args, n.args[::-1]):
                    if u.op == "param" and v.op == "const" and isinstance(v.data, (int, float)) and frac(v.data) is not None:
                        special.setdefault(u.data[1], set()).add(v.data)
        cases = [{}] + [{k: v} for k, vs in special.items() for v in sorted(vs)]
        for case in cases:
            c.section(compare, c, "pairs", "apply", f"ref_apply_{a}", "transformation is its closed form",
                      a + "".join(f" with {k} = {v}" for k, v in case.items()), None, alg=alg, split=4, bind={"kind1": a, **case},
                      anchor=f"glass.grf._transformations:{a}.__call__")
    for run_, ref in (("gauss", "ref_gauss"), ("gauss_one", "ref_gauss_one")):
        c.section(compare, c, "pairs", run_, ref, "Gaussian spectrum by the inverse correlation", run_, None,
                  primitives={CORE + "icorr"}, anchor=CORE + "compute", structural=True)


def derivative(c, run, a, b):
    g = Graph()
    f, s = run("fcorr", a, b, g)
    d, _ = run("fdcorr", a, b, g, s)
    z = alg({})
    u, v = z.of(f.result), z.of(d.result)
    xa = z.of(s["x"])
    (m,), = xa.n.t
    want = z.diff(u, m[0])
    f0 = c.project.find_func(f"glass.grf._transformations:{a}.dcorr")
    loc = (f0[0].rel, f0[2].lineno, f"{a}.dcorr") if f0 else None
    name = f"{a} x {b}"
    if want is None:
        c.unk("derivative of the correlation", name, z.show(u), loc)
        return
    if z.eq(want, v):
        c.ok("derivative of the correlation", name, z.show(v), loc)
        return

    def okay(n, node):
        return n != "leaf" or (node is not None and node.op in ("param", "const"))
    sure = not (f.gaps or d.gaps or f.broken or d.broken) and z.understood(v, okay) and z.understood(want, okay) and z.differ(want, v)
    c.decide(False if sure else None, "derivative of the correlation", name, f"is {z.show(v)[:160]} instead of {z.show(want)[:160]}", loc)
