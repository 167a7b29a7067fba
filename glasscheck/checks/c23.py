"""Radial windows cover their intervals exactly.

Windows and grids are evaluated for known numbers of edges with symbolic values and symbolic
resolution: each array becomes a list of pieces with a symbolic number of samples, whose first, last
and general elements are compared with the edges asked for, in general and for the smallest number of
samples that can occur.
"""

from ..core import Checker  # noqa: F401
from ..closed import case
from ..facts import Facts  # noqa: F401
from ..grids import evaluate
from ..ir import Graph, show
from ..known import Case, PosAlg
from ..pieces import Pieces

ASSUMPTIONS = ["Numbers of edges are those enumerated; edges, resolutions and weights are arbitrary, no edge is NaN.",
               "A weight given by the caller acts on each redshift separately.",
               "Grids of the array library place their samples as documented; exact arithmetic."]
W = {"tophat": "glass.shells:tophat_windows", "linear": "glass.shells:linear_windows", "cubic": "glass.shells:cubic_windows"}
SHAPE = {"linear": lambda A, u: u, "cubic": lambda A, u: A.mul(A.mul(u, u), A.sub(A.C(3), A.mul(A.C(2), u)))}


def loc(c, q):
    f = c.project.find_func(q)
    return (f[0].rel, f[2].lineno, q.partition(":")[2]) if f else None


def check(c):
    for kind in W:
        for n in (3, 4, 5) if kind != "tophat" else (2, 3, 4):
            for weight in (False, True):
                c.section(windows, c, kind, n, weight)
    for part in (means, spacings):
        c.section(part, c)
    c.section(grids, c)
    for n in (1, 2, 3, 7):
        c.section(bins, c, n)
        c.section(dense, c, n)


def means(c):
    for dz in (1.0, 0.5, 0.3):
        case(c, "effective redshifts of tophat windows", f"weighted windows, spacing {dz}", W["tophat"], "tophat_means",
             lambda z: {k: z.arr(k) for k in "abc"} | {"dz": dz})


    for prog, name in (("window_mean", "not given"), ("window_given", "given")):
        case(c, "effective redshift of a window", name, "glass.shells:RadialWindow", prog, lambda z: {"z": z.grid("z", (0, 1, 2, 3)), "w": z.arr("w", (4,))})


def spacings(c):
    rule = "samples are as far apart as asked for"
    for dz in (0.25, 0.2, 0.1):
        z = evaluate(c, "formulas", "tophat_spacing", lambda z: {"dz": dz}, Graph(), {})
        z.A = z.mk()
        xs = z.items()
        name = f"tophat windows, spacing {dz}"
        if z.fails or z.lost or xs is None:
            c.unk(rule, name, z.why(), loc(c, W["tophat"]))
            continue
        vs = [z.A.of(z.el(x)) for x in xs]
        vs = [v.cval() if v.is_const() else None for v in vs]
        bad = next((v for v in vs if v is not None and not 0.5 < v < 2), None)
        c.decide(False if bad is not None else None if None in vs else True, rule, name,
                 f"samples are {float(bad):.3g} times as far apart" if bad is not None else f"{len(vs)} windows", loc(c, W["tophat"]))


class WindowAlg(PosAlg):
    def holds(self, c):
        if c.op == "call" and c.data[0].rpartition(".")[2] == "isnan":
            return False
        return super().holds(c)


def compare(c, z, rule, name, pairs, where):
    """pairs of (label, node or RF, node or RF)."""
    A = z.A
    for label, u, v in pairs:
        if u is None:
            c.unk(rule, name, label, where)
            return
        u, v = (A.of(x) if hasattr(x, "op") else x for x in (u, v))
        if A.eq(u, v):
            continue
        if A.understood(u, z.ok) and A.differ(u, v):
            c.bad(rule, name, f"{label} is {z.show(u)} instead of {z.show(v)}", where)
        else:
            c.unk(rule, name, f"{label}: {z.show(u)}", where)
        return
    c.ok(rule, name, f"{len(pairs)} values", where)


def windows(c, kind, n, weight):
    q, rule = W[kind], "windows reach from edge to edge"
    where = loc(c, q)
    z = Case(c, "windows", kind)
    z.mk = lambda: WindowAlg((), real=True, fill=True)
    edges = z.arr("edges", (n,))
    z.run(edges=edges, **({} if weight else {"weight": None}))
    name = f"{kind} windows, {n} edges, {'with' if weight else 'without'} weight"
    if z.fails:
        return c.bad(rule, name, z.fails, where)
    xs = z.items()
    if z.lost or xs is None:
        return c.unk(rule, name, z.why(), where)
    span = 1 if kind == "tophat" else 2
    if len(xs) != n - span:
        return c.bad(rule, name, f"{len(xs)} windows", where)
    E = [z.A.of(z.g.mk("el", (edges,), (k,))) for k in range(n)]
    z.A.subst.update({m.id: z.A.of(z.el(m)) for m in z.g.nodes if m.op == "index" and z.it.shape(m) == ()})
    A = z.A
    for i, x in enumerate(xs):
        ys = z.items(x)
        if ys is None or len(ys) != 3:
            return c.unk(rule, name, show(x, 3), where)
        za, wa, zeff = ys
        for minimal in (False, True):
            P = Pieces(z, minimal)
            p = P.of(za)
            label = f"window {i}" + (" with as few samples as possible" if minimal else "")
            if not isinstance(p, list):
                return c.unk(rule, name, show(za, 4), where)
            if not p:
                return c.bad(rule, name, f"{label} is empty", where)
            lo, hi = E[i], E[i + span]
            if P.stop is not None and p[-1][0] is None and P.stop[1].op == "param":
                c.bad(rule, name, f"the last sample of {label} depends on the resolution: a range up to {z.show(P.stop[0])} in steps of {z.show(P.stop[1])}", where)
                return None
            pairs = [(f"start of {label}", P.first(p), lo), (f"end of {label}", P.last(p), hi)]
            w = P.of(wa)
            if isinstance(w, list) and all(m is not None for m, _ in p + w):
                total = [A.of(z.g.const(0))] * 2
                for k, l in enumerate((p, w)):
                    for m, _ in l:
                        total[k] = A.add(total[k], A.of(m))
                if not A.eq(*total):
                    compare(c, z, rule, f"{name}, {label}", [(f"number of values of {label}", total[1], total[0])], where)
                    continue
            if not isinstance(w, list) or len(w) != len(p):
                pairs.append((f"values of {label}: {show(wa, 4)}", None, None))
            elif kind == "tophat":
                for (m, e), (_, v) in points(z, P, p, w):
                    pairs.append((f"weight of {label}", v, z.g.mk("call", (weightnode(z), e), ("apply", ("0", "1"))) if weight else A.C(1)))
            else:
                mid = E[i + 1]
                p, w = map(list, zip(*points(z, P, p, w)))
                at = next((j for j, (_, e) in enumerate(p) if A.eq(A.of(P.at(e, z.g.const(0))), mid)), None)
                if at is None:
                    firsts = [A.of(P.at(e, z.g.const(0))) for _, e in p]
                    if minimal or len(p) != 2:
                        return c.unk(rule, name, f"node of {label} among {[z.show(f) for f in firsts]}", where)
                    pairs.append((f"node of {label}", firsts[1], mid))
                else:
                    for j, ((m, e), (_, v)) in enumerate(zip(p, w)):
                        zz = A.of(e)
                        u = A.div(A.sub(zz, lo), A.sub(mid, lo)) if j < at else A.div(A.sub(hi, zz), A.sub(hi, mid))
                        u = SHAPE[kind](A, u)
                        if weight:
                            u = A.mul(u, A.of(z.g.mk("call", (weightnode(z), e), ("apply", ("0", "1")))))
                        pairs.append((f"value of {label} {'below' if j < at else 'above'} its node", v, u))
                    pairs.append((f"effective redshift of {label}", zeff, mid))
            compare(c, z, rule, f"{name}, {label}", pairs, where)


def points(z, P, p, w):
    """Pieces side by side; a piece of few samples by its samples."""
    out = []
    for (m, e), (k, v) in zip(p, w):
        if m is not None and m.op == "const":
            at = [z.g.const(j) for j in range(m.data)]
            out += [((z.g.const(1), P.at(e, j)), (z.g.const(1), P.at(v, j))) for j in at]
        else:
            out.append(((m, e), (k, v)))
    return out


def weightnode(z):
    return next(n for n in z.g.nodes if n.op == "param" and n.data[1] == "weight")


def grids(c):
    rule = "grids start and end at their limits"
    for prog, q in (("zgrid_num", "glass.shells:redshift_grid"), ("zgrid_step", "glass.shells:redshift_grid"),
                    ("xgrid_num", "glass.shells:distance_grid"), ("xgrid_step", "glass.shells:distance_grid"),
                    ("zbins_step", "glass.observations:fixed_zbins")):
        where = loc(c, q)
        z = Case(c, "windows", prog)
        z.mk = lambda: WindowAlg((), real=True, fill=True)
        z.run()
        name = prog
        if z.fails:
            c.bad(rule, name, z.fails, where)
            continue
        if z.lost:
            c.unk(rule, name, z.why(), where)
            continue
        n = z.result
        A = z.A
        A.ident |= {"nextafter"}
        b = z.b
        lo, hi = A.of(b["zmin"]), A.of(b["zmax"])
        while n.op in ("listof", "tuple", "list") and len(n.args) == 1 or n.op == "call" and n.data[0] in ("itertools.pairwise", "builtins.list"):
            n = n.args[0]
        P = Pieces(z)
        if prog.startswith("xgrid"):
            p = P.of(n)
            if p is not None or n.op != "mcall" or n.data[0] != "inv_comoving_distance" or len(n.args) != 2:
                c.unk(rule, name, show(n, 4), where)
                continue
            n = n.args[1]
            lo, hi = (A.of(z.g.mk("mcall", (b["cosmo"], b[k]), ("comoving_distance", ("0",)))) for k in ("zmin", "zmax"))
        p = P.of(n)
        if not isinstance(p, list) or len(p) != 1:
            c.unk(rule, name, show(n, 4), where)
            continue
        pairs = [("start", P.first(p), lo)]
        if prog.endswith("num"):
            num = A.of(b["num"])
            pairs.append(("end", P.last(p), hi))
            pairs.append(("number of samples", p[0][0], A.add(num, A.C(1))))
            pairs.append(("spacing", A.sub(A.of(P.at(p[0][1], z.g.const(1))), A.of(P.first(p))), A.div(A.sub(hi, lo), num)))
        else:
            step = A.of(b["dx" if prog == "xgrid_step" else "dz"])
            pairs.append(("spacing", A.sub(A.of(P.at(p[0][1], z.g.const(1))), A.of(P.first(p))), step))
            kw = dict(zip(n.data[1], n.args)) if n.op == "call" else {}
            if "stop" not in kw:
                pairs.append(("end", None, None))
            else:
                # arange stops before its end: the end must lie a whole step beyond the upper limit
                over = A.div(A.sub(A.of(kw["stop"]), hi), step)
                if over.is_const() and over.cval() != 1:
                    c.bad(rule, name, f"the grid may end {1 - over.cval()} steps short of the upper limit", where) if over.cval() < 1 else \
                        pairs.append((f"end {over.cval()} steps above the limit", None, None))
                    if over.cval() < 1:
                        continue
                else:
                    pairs.append(("end of the range", kw["stop"], A.add(hi, step)))
        compare(c, z, rule, name, pairs, where)


def edges_of(z):
    xs = z.items()
    if xs is None:
        return None
    ps = [z.items(x) for x in xs]
    return ps if all(p is not None and len(p) == 2 for p in ps) else None


def bins(c, n):
    q, rule = "glass.observations:fixed_zbins", "bins share their edges"
    z = Case(c, "windows", "zbins_num")
    z.run(nbins=n)
    name = f"{n} bins of equal width"
    where = loc(c, q)
    ps = edges_of(z) if not z.lost else None
    if z.fails:
        return c.bad(rule, name, z.fails, where)
    if ps is None:
        return c.unk(rule, name, z.why(), where)
    if len(ps) != n:
        return c.bad(rule, name, f"{len(ps)} bins", where)
    A = z.A
    lo, hi = A.of(z.b["zmin"]), A.of(z.b["zmax"])

    def edge(k):
        return A.add(lo, A.mul(A.sub(hi, lo), A.div(A.C(k), A.C(n))))
    return compare(c, z, rule, name, [(f"{('lower', 'upper')[s]} edge of bin {k}", z.el(x), edge(k + s)) for k, p in enumerate(ps) for s, x in enumerate(p)], where)


def dense(c, n):
    q, rule = "glass.observations:equal_dens_zbins", "bins share their edges"
    z = Case(c, "windows", "zbins_dens", elementwise={"np.interp": {"x"}, "xp.interp": {"x"}})
    zz, nz = z.arr("z", (4,)), z.arr("nz", (4,))
    z.run(z=zz, nz=nz, nbins=n)
    name = f"{n} bins of equal density"
    where = loc(c, q)
    ps = edges_of(z) if not z.lost else None
    if z.fails:
        return c.bad(rule, name, z.fails, where)
    if ps is None:
        return c.unk(rule, name, z.why(), where)
    if len(ps) != n:
        return c.bad(rule, name, f"{len(ps)} bins", where)
    A = z.A
    pairs = []
    E = lambda x, k: A.of(z.g.mk("el", (x,), (k,)))
    cum = [A.C(0)]
    for k in range(3):
        cum.append(A.add(cum[-1], A.mul(A.div(A.add(E(nz, k), E(nz, k + 1)), A.C(2)), A.sub(E(zz, k + 1), E(zz, k)))))
    for k, p in enumerate(ps):
        for s, x in enumerate(p):
            e = z.el(x)
            label = f"{('lower', 'upper')[s]} edge of bin {k}"
            if e.op != "call" or e.data[0].rpartition(".")[2] != "interp":
                return c.unk(rule, name, f"{label}: {show(e, 4)}", where)
            kw = dict(zip(e.data[1], e.args))
            if None in (kw.get("x"), kw.get("xp"), kw.get("fp")):
                return c.unk(rule, name, f"{label}: {show(e, 4)}", where)
            # quantiles are the same for any normalisation of the distribution
            top = z.el(kw["xp"], 3)
            pairs.append((f"quantile of the {label}", z.it.binop("/", kw["x"], top), A.div(A.C(k + s), A.C(n))))
            for j in range(4):
                pairs.append((f"redshift at node {j} for the {label}", z.el(kw["fp"], j), E(zz, j)))
                pairs.append((f"cumulative distribution at node {j} for the {label}", z.it.binop("/", z.el(kw["xp"], j), top), A.div(cum[j], cum[3])))
    return compare(c, z, rule, name, pairs, where)
