"""Sequentially generated fields have exactly the requested covariances.

The covariance matrices handed to the sampler are written as products of a symbolic triangular
matrix with its transpose, for known numbers of fields, correlations and multipoles; contents stay
symbolic.  The scaling vectors must be the rows of that matrix, and the harmonic coefficients that
reach the map transform must be linear combinations of standard normal numbers whose covariances are
the requested spectra, in the order of coefficients of the transform.
"""

import copy

from ..alg import RF, Poly
from ..deps import reaches
from ..elem import Elements
from ..ir import show
from ..known import Case, PosAlg
from ..paths import fresh, paths

ASSUMPTIONS = ["Numbers of fields, correlations and multipoles are those enumerated; contents are arbitrary.",
               "Exact arithmetic; diagonal elements of the triangular factor are positive or exactly zero.",
               "The map transform takes coefficients ordered by m first (HEALPix)."]


def loc(c, q):
    f = c.project.find_func(q)
    return (f[0].rel, f[2].lineno, q.partition(":")[2]) if f else None


def check(c):
    deep = c.tier == "thorough"
    for n in range(1, 6 if deep else 5):
        for k in range(n):
            for zero in [None, *range(n)]:
                c.section(factors, c, n, k, zero)
    for n, k in ((2, 1), (3, 1), (3, 2)):
        for axes in (1, 2):
            c.section(stacked, c, n, k, axes)
    for n in (1, 2, 3, 5):
        c.section(scaled, c, n)
    for n, nl, k in ((1, 4, None), (2, 3, None), (2, 3, 0), (3, 3, None), (3, 3, 1), (3, 2, 0), *(((4, 3, None), (4, 3, 2), (2, 5, None)) if deep else ())):
        c.section(fields, c, n, nl, k)
    for n, nl, k in ((2, 3, None), (3, 3, 1)):
        c.section(fields, c, n, nl, k, short=True)
    for n in (1, 2, 3):
        c.section(transformed, c, n)
    for n, nl, k in ((2, 2, None), (3, 2, None)):
        c.section(fields, c, n, nl, k, sign=-1)


def triangle(z, n, k, zero=None, shape=(), tag="L"):
    L = [[z.const(0.0) if i - j > k or j == zero else z.arr(f"{tag}{i}{j}", shape) for j in range(i + 1)] for i in range(n)]
    return L, z.tuple([z.tuple(r) for r in L])


def positive(z, L, nl=None):
    return [z.g.mk("el", (r[-1],), ix) for r in L if r[-1].op == "param" for ix in ([()] if nl is None else [(l,) for l in range(nl)])]


def products(z, ws, L, n, k, el):
    """(label, value, expected) of covariances and remaining variances."""
    A = z.A
    zero = A.C(0)

    def exp(i, j):
        return A.of(z.g.mk("el", (L[i][j],), ())) if L[i][j].op == "param" else zero
    out = []
    for i in range(n):
        out.append((f"scale of field {i}", el(ws[i], k), exp(i, i)))
        for d in range(min(i, k) + 1):
            j = i - d
            u, v = zero, zero
            for m in range(max(0, i - k), j + 1):
                u = A.add(u, A.mul(A.of(el(ws[i], m - i + k)), A.of(el(ws[j], m - j + k))))
                v = A.add(v, A.mul(exp(i, m), exp(j, m)))
            out.append((f"covariance of fields {i} and {j}", u, v))
    return out


def decide(c, z, rule, name, pairs, where):
    for label, u, v in pairs:
        u = z.A.of(u) if hasattr(u, "op") else u
        if z.A.eq(u, v):
            continue
        if z.A.understood(u, z.ok) and z.A.differ(u, v):
            c.bad(rule, name, f"{label} is {z.show(u)} instead of {z.show(v)}", where)
        else:
            c.unk(rule, name, f"{label}: {z.show(u)}", where)
        return
    c.ok(rule, name, f"{len(pairs)} values", where)


def factors(c, n, k, dead):
    q, rule = "glass.fields:iternorm", "scaling vectors reproduce the covariance"
    z = Case(c, "sampling", "factors")
    L, t = triangle(z, n, k, dead)
    z.mk = lambda: PosAlg(positive(z, L), real=True, fill=True)
    z.run(L=t, k=k)
    name = f"{n} fields, {k} correlations" + ("" if dead is None else f", field {dead} without variance of its own")
    ws = z.items()
    if z.fails:
        return c.bad(rule, name, z.fails, loc(c, q))
    if z.lost or ws is None:
        return c.unk(rule, name, z.why(), loc(c, q))
    if len(ws) != n or any(z.it.shape(w) not in (None, (k + 1,)) for w in ws):
        return c.bad(rule, name, f"{len(ws)} scaling vectors of shapes {[z.it.shape(w) for w in ws]}", loc(c, q))
    return decide(c, z, rule, name, products(z, ws, L, n, k, lambda w, m: z.el(w, m)), loc(c, q))


def stacked(c, n, k, axes):
    q, rule = "glass.fields:iternorm", "every member of a stack has its own scaling vector"
    z = Case(c, "sampling", "stacked" if axes == 1 else "stacked2")
    L, t = triangle(z, n, k)
    M, u = triangle(z, n, k, tag="M")
    z.mk = lambda: PosAlg(positive(z, L) + positive(z, M), real=True, fill=True)
    z.run(L=t, M=u, k=k)
    name = f"{n} fields, {k} correlations, stack of shape {(1,) * (axes - 1) + (2,)}"
    ws = z.items()
    if z.fails:
        return c.bad(rule, name, z.fails, loc(c, q))
    if z.lost or ws is None or len(ws) != n:
        return c.unk(rule, name, z.why(), loc(c, q))
    first = (0,) * (axes - 1)
    return decide(c, z, rule, name, products(z, ws, L, n, k, lambda w, m: z.el(w, *first, 0, m)) + products(z, ws, M, n, k, lambda w, m: z.el(w, *first, 1, m)),
                  loc(c, q))


def scaled(c, n):
    q, rule = "glass.harmonics:multalm", "every coefficient is scaled by its multipole"
    z = Case(c, "sampling", "scaled")
    alm, bl = z.arr("alm", (n * (n + 1) // 2,)), z.arr("bl", (n,))
    z.run(alm=alm, bl=bl)
    name = f"{n} multipoles"
    if z.fails:
        return c.bad(rule, name, z.fails, loc(c, q))
    if z.lost:
        return c.unk(rule, name, z.why(), loc(c, q))
    E = lambda x, j: z.A.of(z.g.mk("el", (x,), (j,)))
    return decide(c, z, rule, name, [(f"coefficient ({l}, {m})", z.el(z.result, l * (l + 1) // 2 + m), z.A.mul(E(alm, l * (l + 1) // 2 + m), E(bl, l)))
                                     for l in range(n) for m in range(l + 1)], loc(c, q))


def linear(z, x):
    """Real and imaginary coefficients of the standard normal numbers in a value, or None."""
    A = z.A
    r = A.norm(A.of(x) if hasattr(x, "op") else x)
    if A.I in r.d.atoms():
        return None
    draws = {}
    for a in r.atoms():
        k = A.atoms_[a]
        node = k[2] if k[0] == "leaf" else None
        if node is not None and node.op == "el" and node.args[0].op == "draw":
            if node.args[0].data[0] != "standard_normal":
                return None
            draws[a] = (node.args[0].data[-1], node.data)
        elif node is not None and node.op == "draw":
            return None
    re, im = {}, {}
    for mono, cf in r.n.t.items():
        ds = [(a, e) for a, e in mono if a in draws]
        if len(ds) != 1 or ds[0][1] != 1:
            return None
        i = sum(e for a, e in mono if a == A.I)
        if i > 1:
            return None
        key = draws[ds[0][0]]
        rest = tuple((a, e) for a, e in mono if a not in draws and a != A.I)
        t = im if i else re
        t[key] = t.get(key, Poly()) + Poly({rest: cf})
    return {k: RF(p, r.d) for k, p in re.items()}, {k: RF(p, r.d) for k, p in im.items()}


def fields(c, n, nl, ncorr, short=False, sign=1):
    """Decided for all values; if choices are made, for several generic values, with one sign of the correlations."""
    def trial(salt=None):
        part = copy.copy(c)
        part.obs = []
        spectra(part, n, nl, ncorr, short, sign, salt)
        return part.obs
    obs = trial()
    if any(o["status"] == "undecided" for o in obs):
        obs = next((o for o in map(trial, range(4)) if any(x["status"] == "violated" for x in o)), obs)
    c.obs += obs


def transformed(c, n):
    """Every field is the transformation of its own map with the variance of its own spectrum."""
    q, rule = "glass.fields:generate", "fields are transformed with their own variance"
    where, name = loc(c, q), f"{n} fields"
    state, done = None, 0

    def bind(z):
        gls = [z.arr(f"cl{k}", (2,)) for k in range(n * (n + 1) // 2)]
        return dict(ts=z.tuple([z.arr(f"t{k}") for k in range(n)]), gls=z.tuple(gls), ncorr=z.const(None))
    for P in paths(fresh(c, "sampling", "transformed"), bind, depth=4 * n):
        z = P.case
        if P.cut or z.fails:
            continue
        xs = z.items()
        if z.lost or xs is None:
            state = z.why()
            continue
        done += 1
        if len(xs) != n:
            return c.bad(rule, name, f"{len(xs)} fields", where)
        ts, gls = z.b["ts"].args, z.b["gls"].args
        maps = []
        for i, x in enumerate(xs):
            cl = gls[i * (i + 1) // 2]
            if x.op != "ucall" or len(x.args) != 3 or x.data != ("0", "1"):
                state = show(x, 4)
                continue
            t, m, v = x.args
            if t is not ts[i]:
                if t in ts:
                    return c.bad(rule, name, f"field {i} is transformed by {show(t, 2)}", where)
                state = show(t, 3)
            maps.append(m)
            if m.op != "call" or m.data[0] != "hp.alm2map":
                state = show(m, 3)
            if v.op == "call" and v.data[0] == "transformcl.cltovar" and v.args and v.args[0] in gls:
                if v.args[0] is not cl:
                    return c.bad(rule, name, f"field {i} is transformed with the variance of {show(v.args[0], 2)}", where)
                continue
            var = [y for y in z.g.nodes if y.op == "call" and y.data[0] == "transformcl.cltovar" and y.args and y.args[0] is cl]
            A = PosAlg(real=True, fill=True)
            if len(var) == 1 and v.op in ("const", "bin", "un"):
                A.subst[var[0].id] = A.C(0)
                if all(A.holds(y) is t for y, t in P.trace if y.op == "cmp" and reaches(y, lambda w: w is var[0])) and A.of(v).is_const() and not A.of(v).zero():
                    return c.bad(rule, name, f"field {i} is transformed with {show(v, 3)} if its variance is zero", where)
                A = PosAlg([var[0]], real=True, fill=True)
                at = [(y, t) for y, t in P.trace if y.op == "cmp" and reaches(y, lambda w: w is var[0])]
                if not reaches(v, lambda w: w.op == "ucall") and A.differ(A.of(v), A.of(var[0]), at):
                    return c.bad(rule, name, f"field {i} is transformed with {show(v, 3)}", where)
            state = f"variance of field {i}: {show(v, 4)}"
        if len(set(maps)) != len(maps):
            return c.bad(rule, name, "the same map is used for two fields", where)
    c.decide(True if done and state is None else None, rule, name, state or f"{done} paths", where)


class At(PosAlg):
    """Choices are made as at a generic point."""

    def __init__(self, salt, *args, **kw):
        super().__init__(*args, **kw)
        self.salt = salt

    def holds(self, c):
        h = super().holds(c)
        return self.truth(c, self.salt) if h is None else h


def spectra(c, n, nl, ncorr, short, sign, salt=None):
    q, rule = "glass.fields:generate", "coefficients have the requested spectra"
    z = Case(c, "sampling", "maps")
    k = n - 1 if ncorr is None else ncorr
    L, t = triangle(z, n, k, shape=(nl,))
    if short:
        L[n - 1] = [z.const(0.0) if x.op == "const" else z.arr(x.data[1], (nl - 1,)) for x in L[n - 1]]
        t = z.tuple([z.tuple(r) for r in L])
    z.mk = lambda: PosAlg(positive(z, L, nl), real=True, fill=True) if salt is None else At(salt, positive(z, L, nl), real=True, fill=True)
    if sign < 0:
        L = [[z.g.mk("un", (x,), "-") if x.op == "param" and j < i else x for j, x in enumerate(r)] for i, r in enumerate(L)]
        t = z.tuple([z.tuple(r) for r in L])
    if salt is not None:
        probe = z.mk()

        def oracle(it, cond):
            E = Elements(it)

            def expand(x):
                return z.g.mk(x.op, tuple(expand(y) for y in x.args), x.data) if x.op in ("not", "and", "or") else E.at(x, ())
            return probe.holds(expand(cond))
        z.oracle = oracle
    z.run(L=t, ncorr=ncorr, short=nl - 1 if short else None)
    name = f"{n} fields, {nl} multipoles, ncorr={ncorr}" + (", spectra of the last field shorter" if short else "") + (", anticorrelated" if sign < 0 else "")
    where = loc(c, q)
    xs = z.items()
    if z.fails:
        return c.bad(rule, name, z.fails, where)
    if z.lost or xs is None:
        return c.unk(rule, name, z.why(), where)
    if len(xs) != n:
        return c.bad(rule, name, f"{len(xs)} maps for {n} fields", where)
    A = z.A
    lm = [(l, m) for m in range(nl) for l in range(m, nl)]
    val = []
    for x in xs:
        if x.op != "call" or x.data[0] != "hp.alm2map":
            return c.unk(rule, name, z.show(x), where)
        a = dict(zip(x.data[1], x.args)).get("alms")
        s = z.it.shape(a) if a is not None else None
        if s is None:
            return c.unk(rule, name, "shape of the coefficients", where)
        if s != (len(lm),):
            return c.bad(rule, name, f"{s} coefficients for {nl} multipoles", where)
        val.append([linear(z, z.el(a, j)) for j in range(len(lm))])
        if None in val[-1]:
            return c.unk(rule, name, z.show(z.el(a, val[-1].index(None))), where)

    def cov(u, v):
        r = A.C(0)
        for key in u:
            if key in v:
                r = A.add(r, A.mul(u[key], v[key]))
        return r

    def el(i, j, l):
        x = L[i][j]
        if x.op == "un":
            return A.sub(A.C(0), bare(x.args[0], l))
        return bare(x, l)

    def bare(x, l):
        s = x.meta["shape"][0] if x.op == "param" else 0
        return A.of(z.g.mk("el", (x,), (l,))) if l < s else A.C(0)
    pairs = []
    for i in range(n):
        for j in range(max(0, i - k), i + 1):
            for p, (l, m) in enumerate(lm):
                want = A.C(0)
                for a in range(j + 1):
                    want = A.add(want, A.mul(el(i, a, l), el(j, a, l)))
                if m == 0:
                    want = A.add(want, want)
                u, v = val[i][p], val[j][p]
                at = f"fields {i} and {j} at ({l}, {m})"
                pairs.append((f"covariance of the real parts of {at}", cov(u[0], v[0]), want))
                pairs.append((f"covariance of the imaginary parts of {at}", cov(u[1], v[1]), want if m else A.C(0)))
                pairs.append((f"covariance of real and imaginary part of {at}", cov(u[0], v[1]), A.C(0)))
                pairs.append((f"covariance of imaginary and real part of {at}", cov(u[1], v[0]), A.C(0)))
                for p2, (l2, m2) in enumerate(lm):
                    if p2 != p and ({*u[0], *u[1]} & {*val[j][p2][0], *val[j][p2][1]}):
                        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                            pairs.append((f"covariance of field {i} at ({l}, {m}) and field {j} at ({l2}, {m2})", cov(u[a], val[j][p2][b]), A.C(0)))
    return decide(c, z, rule, name, pairs, where)
