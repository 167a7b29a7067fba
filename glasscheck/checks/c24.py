"""Regularised covariances are symmetric and not indefinite.

The functions are evaluated for known sizes with symbolic matrices; eigenvalues and eigenvectors are
independent symbols, and every element of the results is compared with its closed form, on every path
through the iterations.  The nearest covariance is evaluated for every choice of signs of variances.
"""

import itertools

from ..alg import Alg
from ..deps import outermost
from ..ir import show
from ..known import Case, Signs, verdict
from ..paths import fresh, paths
from .c27 import loc

ASSUMPTIONS = ["Sizes and numbers of iterations are those enumerated; exact arithmetic.",
               "The eigenvalue decomposition returns eigenvalues and eigenvectors; those of different matrices are independent."]
CLIP, NEAR = "glass.algorithm:cov_clip", "glass.algorithm:nearcorr"
SHAPES = ((1, 1), (2, 2), (3, 3), (2, 2, 2), (1, 3, 2, 2))


def check(c):
    for shape in SHAPES:
        for rtol in (None, "given", 0.0):
            c.section(clip, c, shape, rtol)
    for shape in ((1, 1), (2, 2), (3, 3), (2, 2, 2)):
        for niter in (1, 2, 3):
            if niter < 2 or niter == 2 and shape != (3, 3) or shape == (1, 1):
                c.section(correlation, c, shape, niter)
    for shape in ((1, 1), (2, 2), (3, 3), (2, 2, 2)):
        for signs in itertools.product((1, 0, -1), repeat=shape[-1]):
            for k in range(shape[0] if len(shape) > 2 else 1):
                c.section(nearest, c, shape, signs, k)
    for lengths in ((2,), (3, 3, 3), (2, 1, 2), (1, 3, 2), (2,) * 6, (1, 2, 1, 1, 2, 3)):
        c.section(definite, c, lengths)


def definite(c, lengths):
    """Eigenvalues of every multipole have known signs: the spectra are valid when none is negative."""
    rule = "spectra are valid when no eigenvalue is negative"
    where = loc(c, "glass.fields:check_posdef_spectra")
    n, top = {1: 1, 3: 2, 6: 3}[len(lengths)], max(lengths)
    z = Case(c, "iteration", "definite")
    cls = [z.arr(f"cl{k}", (s,)) for k, s in enumerate(lengths)]
    z.run(spectra=z.tuple(cls))
    name = f"spectra of lengths {lengths}"
    if z.fails:
        c.bad(rule, name, z.fails, where)
        return
    if z.lost:
        c.unk(rule, name, z.why(), where)
        return
    order = [(i, i - d) for i in range(n) for d in range(i + 1)]
    want = [[[None] * n for _ in range(n)] for _ in range(top)]
    for l in range(top):
        for k, (i, j) in enumerate(order):
            want[l][i][j] = want[l][j][i] = z.el(cls[k], l) if l < lengths[k] else z.const(0)
    multipoles = {}

    def multipole(x, lead):
        """The multipole whose matrix this is, or None."""
        if (x.id, lead) not in multipoles:
            fit = [l for l in range(top) if z.it.shape(x) is not None and z.it.shape(x)[len(lead):] == (n, n) and
                   all(z.A.eq(z.A.of(z.el(x, *lead, i, j)), z.A.of(want[l][i][j])) for i in range(n) for j in range(n))]
            multipoles[x.id, lead] = fit[0] if len(fit) == 1 else None
        return multipoles[x.id, lead]

    def eigenvalue(node):
        """Multipoles and places of the eigenvalues whose product a value is, or None."""
        if node is None or node.op not in ("el", "call"):
            return None
        e, idx = (node.args[0], node.data) if node.op == "el" else (node, ())
        part = z.it.part(e)
        if part is not None and part[1] == 0:
            e = part[0]
        elif e.op != "call" or not e.data[0].endswith(("linalg.eigvalsh", "linalg.det")) or not e.args:
            return None
        det = e.data[0].endswith("det")
        l = multipole(e.args[0], tuple(idx if det else idx[:-1]))
        return None if l is None else [(l, k) for k in (range(n) if det else idx[-1:])]

    patterns = [("no eigenvalue is negative", {}, True)]
    for l in range(top):
        patterns += [(f"the smallest eigenvalue at l={l} is 0", {(l, 0): 0}, True)]
        patterns += [(f"{m} eigenvalues at l={l} are negative", {(l, k): -1 for k in range(m)}, False) for m in range(1, n + 1)]
        patterns += [(f"the eigenvalues at l={l} are 0 and one of them negative", {(l, 0): -1} | {(l, k): 0 for k in range(1, n)}, False)] if n > 1 else []
    done = 0
    for (what, signs, valid), small in itertools.product(patterns, (1, 0.05)):
        A = Alg(real=True, fill=True)

        def ranges(name, args, node):
            es = eigenvalue(node)
            if es is None:
                return (0.1, 0.9)
            sg = 1
            for e in es:
                sg *= signs.get(e, 1)
            k = es[0][1] if len(es) == 1 else 0
            return {0: (0.0, 0.0), 1: (0.2 + k, 0.7 + k), -1: (small * (k - n - 0.7), small * (k - n - 0.2))}[sg]
        A.ranges = ranges
        ts = {truth(A, z.el, z.result, eigenvalue, salt) for salt in range(5)}
        t = not valid if (not valid) in ts else None if None in ts else valid
        if t is None:
            c.unk(rule, name, f"not decided when {what}: {show(z.result, 4)}", where)
            return
        if t is not valid:
            c.bad(rule, name, f"the spectra are {'' if t else 'not '}valid when {what}", where)
            return
        done += 1
    c.ok(rule, name, f"{done} patterns of signs", where)


def truth(A, el, x, eigenvalue, salt):
    """Truth of a condition on eigenvalues of known sign, or None."""
    x = el(x)
    if x.op == "not":
        t = truth(A, el, x.args[0], eigenvalue, salt)
        return None if t is None else not t
    if x.op == "const":
        return bool(x.data)
    if x.op in ("and", "or") or x.op == "call" and x.data[0].rpartition(".")[2] in ("any", "all", "bool") and x.args:
        stop = x.op == "or" or x.op == "call" and x.data[0].endswith("any")
        ts = [truth(A, el, a, eigenvalue, salt) for a in x.args]
        return stop if stop in ts else None if None in ts else not stop
    if x.op == "cmp" and x.data in ("<", "<=", "==", "!=") and len(x.args) == 2:
        def ok(name, node):
            return eigenvalue(node) is not None or name == "leaf" and node is not None and node.op == "const" or name in ("min", "max")
        u, v = (A.of(a) for a in x.args)
        if not A.understood(u, ok) or not A.understood(v, ok):
            return None
        return compared(A, x.data, u, v, salt)
    return None


def compared(A, op, u, v, salt):
    try:
        a, b = A.value(u, salt).real, A.value(v, salt).real
    except (ZeroDivisionError, OverflowError, ValueError):
        return None
    return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[op]


def first(it, kw, depth):
    return it.shape(kw.get("a", next(iter(kw.values()))), depth)


def indices(shape):
    return itertools.product(*map(range, shape))


def eigen(z):
    """Eigenvalues and eigenvectors are independent quantities."""
    ok = z.ok

    def okay(name, node):
        if name == "leaf" and node is not None and node.op == "el":
            p = node.args[0]
            return eigenpart(p) and p.args[0].args[0].op == "param" or p.op == "param" and p.meta["name"] != "cov"
        return ok(name, node)
    z.ok = okay
    z.mk = algebra
    return z


def algebra():
    A = Alg(fill=True)
    A.phis = True
    A.ranges = ranges
    return A


def ranges(name, args, node):
    """Eigenvalues are ascending, the largest one is positive."""
    if node is not None and node.op == "el" and eigenpart(node.args[0]):
        e = node.args[0]
        k, n = node.data[-1], SIZE[0]
        if e.args[1:] and e.args[1].data in (0, "eigenvalues") or e.data == "eigenvalues":
            return (0.4, 1.0) if k == n - 1 else (0.0, 0.35) if k == n - 2 and n > 2 else (-0.9, 0.3 if n == 2 else -0.1)
        return (-0.9, 0.9)
    return (0.15, 0.85)


SIZE = [0]


def clip(c, shape, rtol):
    rule = "eigenvalues raised to a fraction of the largest"
    name = f"{shape} matrices, tolerance {rtol or 'default' if rtol is None else rtol}"
    SIZE[0] = shape[-1]
    mk = fresh(c, "iteration", "clip")
    z = eigen(mk())
    r = z.arr("rtol") if rtol == "given" else rtol
    cov = z.arr("cov", shape)
    z.run(cov=cov, rtol=r)
    w = Case(c, "iteration", "clipped", graph=z.g)
    if rtol is None:
        r = default(z, shape)
        if r is None:
            if z.fails:
                c.bad(rule, name, z.fails, loc(c, CLIP))
            else:
                c.unk(rule, name, "the default tolerance is not understood", loc(c, CLIP))
            return
    w.run(cov=cov, rtol=r)
    s = z.it.shape(z.result) if z.result is not None else None
    if not z.lost and s is not None and s != shape:
        c.bad(rule, name, f"the result has shape {s}", loc(c, CLIP))
        return
    verdict(c, rule, name, [(f"element {i}", z.el(z.result, *i), w.el(w.result, *i)) for i in indices(shape)] if not z.lost and not w.lost else None, z, loc(c, CLIP))


def default(z, shape):
    """The default tolerance, if it is a positive number for the type of the eigenvalues."""
    eps = outermost(z.result, lambda x: x.op == "attr" and x.data == "eps") if z.result is not None else {}
    if len(eps) != 1:
        return None
    return z.it.binop("*", z.const(shape[-1]), next(iter(eps.values())))


def correlation(c, shape, niter):
    rule = "symmetric with unit diagonal"
    name = f"{shape} matrices, {niter} iterations"
    where = loc(c, NEAR)
    state, detail, done = "ok", "", 0
    for tol in ("given", None) if niter == 1 else ("given",):
        for P in paths(fresh(c, "iteration", "correlation"), lambda z: dict(a=z.arr("a", shape), tol=z.arr("tol") if tol else None, niter=niter), depth=niter + 4):
            z = P.case
            if P.cut or z.fails:
                continue
            if z.lost:
                state, detail = "unk", z.why()
                continue
            s = z.it.shape(z.result)
            if s is not None and s != shape:
                c.bad(rule, name, f"the result has shape {s}", where)
                return
            done += 1
            for i in indices(shape[:-2]):
                for j in range(shape[-1]):
                    for k in range(j + 1):
                        x, y = z.el(z.result, *i, j, k), z.const(1) if j == k else z.el(z.result, *i, k, j)
                        r = differs(z, x, y, j == k)
                        if r is True:
                            continue
                        if r is False:
                            what = "on the diagonal" if j == k else f"at {(j, k)} and {z.show(y)} at {(k, j)}"
                            c.bad(rule, name, f"{z.show(x)} {what} after {story(P)}", where)
                            return
                        state, detail = "unk", f"element {(j, k)}: {z.show(x)}"
    if not done:
        state, detail = "unk", detail or "no path returns"
    c.decide(True if state == "ok" else None, rule, name, detail or f"{done} paths", where)


def differs(z, x, y, diag):
    """True if equal, False if surely different, None otherwise."""
    A = z.A
    u, v = A.of(x), A.of(y)
    if A.eq(u, v):
        return True

    def ok(name, node):
        if name == "leaf":
            return node is not None and (node.op in ("const", "param", "pos") or
                                         node.op == "el" and (node.args[0].op == "attr" and node.args[0].data == "eps" or node.args[0].op == "param" or eigenpart(node.args[0])))
        return name in ("sqrt", "max", "min", "abs", "exp", "log")
    if A.understood(u, ok) and A.understood(v, ok) and A.differ(u, v):
        return False
    return None


def eigenpart(n):
    return n.op in ("index", "attr") and n.args[0].op == "call" and n.args[0].data[0].endswith("eigh")


def story(P):
    return ", ".join(f"{show(c, 3)} {'holds' if t else 'does not hold'}" for c, t in P.trace) or "no decision"


def nearest(c, shape, signs, k):
    """Variances of matrix k have the given signs, those of the others are positive."""
    neg = -1 in signs
    rule = "negative variances are rejected" if neg else "variances are kept"
    name = f"{shape} matrices, signs {signs}" + (f" in matrix {k}" if len(shape) > 2 else "")
    where = loc(c, "glass.algorithm:cov_nearest")
    seen = None
    for salt in (None, 0, 1, 2, 3):
        z = Case(c, "iteration", "nearest", primitives={NEAR}, rules={NEAR: first})
        cov = z.arr("cov", shape)
        known = []
        for i in indices(shape[:-2]):
            known += [(cov, (*i, j, j), s if not i or i == (k,) else 1) for j, s in enumerate(signs)]
        Signs(z, known, salt)
        z.opaque = {NEAR}
        z.run(cov=cov, tol=z.arr("tol"), niter=z.arr("niter"))
        if neg and z.fails:
            seen = z.fails
            if salt is None:
                break   # decided by the signs alone
        elif neg and z.lost:
            if salt is not None:
                seen = None
                break
        elif neg:
            c.bad(rule, name, f"the result is {show(z.result, 3)}", where)
            return
        else:
            break
    if neg:
        if seen and salt is None:
            c.ok(rule, name, seen)
        else:
            c.unk(rule, name, seen or z.why(), where)
        return
    if z.fails or z.lost:
        verdict(c, rule, name, None, z, where)
        return
    for n in outermost(z.result, lambda x: x.op == "call" and x.data[0] == NEAR).values():
        a = n.args[n.data[1].index("a")] if "a" in n.data[1] else n.args[0]
        for ix in indices(shape):
            if undefined(z.A, z.el(a, *ix)):
                c.bad("correlations are defined", name, f"element {ix} of the matrix {show(a, 3)} is divided by zero", where)
                return
            j, l = ix[-2:]
            lo = z.g.mk("el", (n,), (*ix[:-2], min(j, l), max(j, l)))
            e = z.g.mk("el", (n,), ix)
            if j == l:
                z.A.subst[e.id] = z.A.C(1)
            elif e is not lo:
                z.A.subst[e.id] = z.A.of(lo)
    if all(s > 0 for s in signs):
        scaled(c, z, name, where, cov, shape)
    pairs = [(f"element {ix}", z.el(z.result, *ix), z.A.C(0) if s == 0 else z.el(n, *ix)) for n, ix, s in known]
    pairs += [(f"element {ix}", z.el(z.result, *ix), z.el(z.result, *ix[:-2], ix[-1], ix[-2])) for ix in indices(shape) if ix[-2] < ix[-1]]
    verdict(c, rule, name, pairs, z, where)


def scaled(c, z, name, where, cov, shape):
    """The matrix searched from is that of the correlations, and the one found is scaled back."""
    found = list(outermost(z.result, lambda x: x.op == "call" and x.data[0] == NEAR).values())
    rule = "correlations are those of the covariance"
    if len(found) != 1:
        c.unk(rule, name, f"{len(found)} searches", where)
        return
    n = found[0]
    a = n.args[n.data[1].index("a")] if "a" in n.data[1] else n.args[0]
    if z.it.shape(a) != shape:
        c.unk(rule, name, show(a, 3), where)
        return

    def norm(ix):
        i, (j, l) = ix[:-2], ix[-2:]
        return z.A.of(z.g.bin("*", *[z.g.mk("call", (z.el(cov, *i, k, k),), ("np.sqrt", ("x",))) for k in (j, l)]))
    pairs = [(f"correlation {ix}", z.el(a, *ix), z.A.div(z.A.of(z.el(cov, *ix)), norm(ix))) for ix in indices(shape)]
    pairs += [(f"covariance {ix}", z.el(z.result, *ix), z.A.mul(z.A.of(z.g.mk("el", (n,), ix)), norm(ix))) for ix in indices(shape)]
    verdict(c, rule, name, pairs, z, where)


def undefined(A, n, seen=None):
    """The value is computed with a division by zero."""
    seen = set() if seen is None else seen
    if n.op == "phi":
        n = A.choose(n)
        if n.op == "phi":
            return undefined(A, n.args[0], seen)
    if n.id in seen:
        return False
    seen.add(n.id)
    if n.op == "bin" and n.data == "/" and A.of(n.args[1]).zero():
        return True
    return n.op in ("bin", "un", "call", "cmp") and any(undefined(A, a, seen) for a in n.args)
