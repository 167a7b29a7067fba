"""Lensing maps do not depend on which other maps are requested.

from_convergence is evaluated symbolically for all eight combinations of requested maps over the
same convergence map, band limit and discretisation flag, in one value graph.  Every map of every
combination is compared with the map the full request returns at the same place (potential,
deflection, shear), in exact algebra where successive harmonic filters multiply.  Requesting
none returns the empty tuple.  Lengths of the returned tuples follow from the same comparison.
"""

from ..alg import Alg
from ..interp import Config, analyse
from ..ir import Graph, show
from ..refs import compare
from ..util import HP, UX, with_specs

ASSUMPTIONS = ["Filtering coefficients with healpy.almxfl multiplies them, so that successive filters commute and multiply."]
Q = "glass.lensing:from_convergence"
NAMES = [f"{req}:{m}" for req, ms in (("potential", "p"), ("deflection", "d"), ("shear", "s"), ("potential+deflection", "pd"),
         ("potential+shear", "ps"), ("deflection+shear", "ds")) for m in ms]
FULL = dict(p="potential", d="deflection", s="shear")
NAMES = [f"{n.split(':')[0]} requested:{FULL[n.split(':')[1]]}" for n in NAMES]
OK = ("hp.", "index", "list", "tuple", "slice", "sqrt", "apply_where", "xpx.", "cmp", "masked", "arange", "zeros", "not", "and", "or",
      "phi", "call", ".", "bin", "byell", "where", "abs", "exp", "pow", "un", "full", "ones", "stack", "concat", "real", "imag")


def ok(n, node):
    if n == "leaf":
        return node is not None and node.op in ("param", "const", "ns", "nsfn")
    return n.startswith(OK)


def check(c):
    for lmax in ("given", "None"):
        for disc in (True, False):
            name = f"lmax {lmax}, {'' if disc else 'not '}discretized"
            b = {"discretized": disc}
            if lmax == "None":
                b["lmax"] = None
            c.section(same, c, name, b)
            c.section(lengths, c, name, b)


def same(c, name, b):
    compare(c, "lensing", "maps", "ref_maps", "same map whatever else is requested", name, names=NAMES, bind=b, anchor=Q, ok=ok, alg=lambda a: Alg(assume=a, fill=True))


def lengths(c, name, b):
    p = with_specs(c.project, "lensing")
    g = Graph()
    for flags in range(8):
        f = [bool(flags & k) for k in (1, 2, 4)]
        it = analyse(p, Q, Config(primitive_prefix=[HP, UX], notnull={"kappa", "lmax"}),
                     bind={k: g.const(v) for k, v in {**b, "potential": f[0], "deflection": f[1], "shear": f[2]}.items()}, graph=g)
        c.count(it)
        what = "+".join(x for x, y in zip(("potential", "deflection", "shear"), f) if y) or "nothing"
        r = it.result
        m, _, fn = p.find_func(Q)
        loc = (m.rel, fn.lineno, "from_convergence")
        if r.op != "tuple" or any(x.op == "star" for x in r.args):
            c.unk("as many maps as requested", f"{name}:{what}", show(r, 3), loc)
        else:
            c.decide(len(r.args) == sum(f), "as many maps as requested", f"{name}:{what}", f"returns {len(r.args)} for {sum(f)}", loc)
