"""Iterative solvers end, and say so when they have not converged.

The solvers are evaluated along their paths for known sizes and iteration limits.  On every path the
status or the missing warning must be backed by a comparison with the tolerance that was made on that
path, on the result returned; a loop that is left only on a comparison must be guarded against values
for which the comparison never holds.
"""

from ..deps import atoms, calls, outermost, reaches
from ..ir import show
from ..known import Case
from ..paths import fresh, paths
from .c27 import GRF, RULES, TRANSFORMS, loc, solver

ASSUMPTIONS = ["Numbers of elements and iterations are those enumerated; spectra, matrices and tolerances are arbitrary, including infinities and NaN.",
               "The transforms between spectra and correlations and the correlations of transformed fields end and are any functions of their arguments.",
               "A finite step that is halved again and again becomes zero; with a zero step the error is the one before.",
               "A comparison with NaN is false."]
CORR = "glass.grf._core:corr"
CLIP = "glass.algorithm:cov_clip"
EIG = "eigh"


def check(c):
    for monopole in (None, "given"):
        for maxiter in (0, 1, 2):
            c.section(status, c, monopole, maxiter)
        c.section(search, c, monopole)
    for info in (0, 1, 2, 3):
        c.section(reported, c, info)
    for shape in ((2, 2), (2, 2, 2)):
        for niter in (0, 1, 2):
            c.section(nearest, c, shape, niter)


# ------------------------------------------------------------- solver
def bound(name):
    return lambda x: x.op == "param" and x.data[1] == name


def comparisons(trace, tol):
    """Decided comparisons with a tolerance: (condition, truth, position)."""
    out = []
    for k, (c, t) in enumerate(trace):
        for a, s in atoms(c, t):
            if reaches(a, bound(tol)):
                out.append((a, s, k))
    return out


def met(z, a, s, tol):
    """Whether a decided condition says that an error is within the tolerance; None if unclear, "nan" if it may be NaN."""
    if a.op == "cmp" and a.data in ("<", "<="):
        lo, hi = a.args
        l, h = (reaches(x, bound(tol)) is not None for x in (lo, hi))
        if h and not l:
            return s and not loose(z, hi, tol)
        if l and not h:
            return "nan" if not s else False
    return None


def loose(z, hi, tol):
    """Whether an upper bound is larger than the tolerance for some positive values."""
    n = reaches(hi, bound(tol))
    if n is hi or n is None:
        return False
    try:
        A = z.mk()
        u, v = A.of(hi), A.of(n)
        if not all(a is not None and a.op == "param" for a in leafs(hi)):
            return False
        at = [(A.value(u, salt).real, A.value(v, salt).real) for salt in range(40)]
        return any(y > 0 and x > y * (1 + 1e-9) for x, y in at)
    except (ZeroDivisionError, OverflowError, ValueError, AttributeError, TypeError):
        return False


def leafs(n):
    """Innermost nodes other than constants."""
    stack, out, seen = [n], [], set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "param" or not x.args and x.op != "const":
            out.append(x)
        else:
            stack += x.args
    return out


def notnan(trace, e, upto):
    """Whether it has been decided that e is a number."""
    for c, t in trace[:upto + 1]:
        for a, s in atoms(c, t):
            if a.op == "call" and a.data[0].rpartition(".")[2] in ("isnan", "isfinite", "isinf") or a.op == "call" and reaches(a, lambda x: x.op == "call" and x.data[0].rpartition(".")[2] in ("isnan", "isfinite")):
                if reaches(a, lambda x: x is e) or set(outermost(a, calls(CORR))) & set(outermost(e, calls(CORR))):
                    return True
            if a.op == "cmp" and s and a.data in ("<", "<=") and any(x is e for x in a.args):
                return True
            if a.op == "cmp" and a.data == "==" and s and all(x is e for x in a.args):
                return True
    return False


def spectrum(z, monopole, maxiter):
    return dict(cl=z.arr("cl", (3,)), pad=0, maxiter=maxiter, initial=None, monopole=None if monopole is None else z.arr("monopole"))


def status(c, monopole, maxiter):
    q, rule = "glass.grf._solver:solve", "success is only reported for a result within tolerance"
    where = loc(c, q)
    name = f"{maxiter} iterations, monopole {monopole}"
    state, done = None, 0
    for P in paths(solver(c), lambda z: spectrum(z, monopole, maxiter), depth=9 if maxiter < 2 else 11):
        z = P.case
        if P.cut or z.fails:
            continue
        if z.lost:
            state = z.why()
            continue
        res = z.items()
        if res is None or len(res) != 3 or res[2].op != "const" or not isinstance(res[2].data, int):
            state = show(z.result, 3)
            continue
        done += 1
        info = int(res[2].data)
        for bit, tol, fn, out in ((1, "cltol", CORR, res[1]), (2, "gltol", "transformcl.corrtocl", res[0])):
            if not info & bit:
                continue
            tests = [(a, met(z, a, s, tol), k) for a, s, k in comparisons(P.trace, tol)]
            what = {1: "the spectrum", 2: "the step"}[bit]
            if not any(m is not False for _, m, _ in tests):
                c.bad(rule, name, f"status {info} although {what} was not found to be within its tolerance: {story(P)}", where)
                return
            if any(m is None for _, m, _ in tests):
                state = f"test of {what}: {show(tests[-1][0], 4)}"
                continue
            good = [(a, k) for a, m, k in tests if m is True]
            if not good:
                a, _, k = [t for t in tests if t[1] == "nan"][-1]
                e = next(x for x in a.args if not reaches(x, bound(tol)))
                if not notnan(P.trace, e, len(P.trace)):
                    c.bad(rule, name, f"status {info} if the error of {what} is NaN: {show(a, 3)} is false", where)
                    return
                good = [(a, k)]
            of = set(outermost(out, calls(fn)))
            if not of:
                state = f"{what} is {show(out, 3)}"
                continue
            if bit == 1:
                fits = [a for a, _ in good if set(outermost(a, calls(fn))) == of]
            else:
                fits = [a for a, _ in good if set(outermost(a, calls(fn))) <= of]
            if not fits:
                c.bad(rule, name, f"status {info}: the values returned are not those that were tested in {show(good[-1][0], 3)}: {story(P)}", where)
                return
    c.decide(True if state is None and done else None, rule, name, state or f"{done} paths", where)


def story(P):
    return "; ".join(f"{show(a, 2)[:50]} is {t}" for a, t in P.trace[:5]) or "no comparison is made"


def search(c, monopole):
    q, rule = "glass.grf._solver:solve", "the search for a step ends"
    where = loc(c, q)
    name = f"monopole {monopole}"
    state, done, ends = None, 0, 0
    checked = set()
    for P in paths(solver(c), lambda z: spectrum(z, monopole, 1), depth=16):
        z = P.case
        done += 1
        if not P.cut:
            ends += 1
            if z.lost and not z.fails:
                state = z.why()
            continue
        # the same decision again and again: does it go on?
        if ends_later(c, monopole, P):
            continue
        loop = P.trace[-6:]
        if not all(t == loop[0][1] and a.op == loop[0][0].op for a, t in loop):
            state = f"loop on several conditions: {[(show(a, 2)[:60], t) for a, t in loop[:3]]}"
            continue
        a, t = loop[-1]
        if a.op != "cmp" or a.data not in ("<", "<="):
            state = f"loop on {show(a, 3)}"
            continue
        if t:
            continue        # two numbers are compared: neither is NaN
        ref = [x for x in a.args if all(x in b.args for b, _ in loop)]
        if len(ref) != 1:
            state = f"loop on {show(a, 3)}"
            continue
        ref = ref[0]
        new = next(x for x in a.args if x is not ref)
        start = next(k for k, (b, _) in enumerate(P.trace) if b.op == "cmp" and b.data == a.data and ref in b.args and
                     not reaches(b, bound("cltol")) and not reaches(b, bound("gltol")))
        if reaches(ref, bound("cltol")) or reaches(ref, bound("gltol")):
            c.bad(rule, name, f"the loop goes on without limit while {show(a, 3)} is false", where)
            return
        before = P.trace[:start]
        if not notnan(before, ref, len(before)):
            c.bad(rule, name, f"the loop never ends if the error is NaN: {show(a, 3)} stays false", where)
            return
        step = {k: v for k, v in outermost(new, calls(CORR)).items()}
        steps = {i for v in step.values() for i in outermost_args(v)}
        if not any(finite(b, s, steps) for d in before for b, s in atoms(*d)):
            c.bad(rule, name, f"the loop never ends if the step is not finite: {show(a, 3)} stays false", where)
            return
        checked.add(start)
    c.decide(True if state is None and ends else None, rule, name, state or f"{done} paths, {ends} end, {len(checked)} loops guarded", where)


def outermost_args(call):
    out = set()
    for x in call.args:
        out |= set(outermost(x, calls("transformcl.corrtocl")))
    return out


def finite(a, s, steps):
    f = reaches(a, lambda x: x.op in ("call", "mcall") and x.data[0].rpartition(".")[2] in ("isfinite", "isnan", "isinf"))
    return f is not None and bool(set(outermost(a, calls("transformcl.corrtocl"))) & steps)


def ends_later(c, monopole, P, rounds=2400):
    """Whether the path ends if its last decision is repeated for long enough."""
    values = [t for _, t in P.trace]
    mk = solver(c)
    seen = {"n": 0}

    def oracle(it, cond):
        k = seen["n"]
        seen["n"] += 1
        if k >= rounds:
            return None
        return values[k] if k < len(values) else values[-1]
    z = mk()
    z.oracle = oracle
    z.cfg["max_nodes"] = 10 ** 7
    z.run(**spectrum(z, monopole, 1))
    return seen["n"] < rounds


# ------------------------------------------------------------ warning
def reported(c, info):
    q, rule = "glass.fields:solve_gaussian_spectra", "a spectrum that did not converge is reported"
    where = loc(c, q)
    mk = fresh(c, "iteration", "spectra", primitives={"glass.grf._solver:solve"})
    name = f"solver status {info}"
    state, done = None, 0
    for P in walk(mk, info):
        z = P.case
        if P.cut or z.fails:
            continue
        if z.lost:
            state = z.why()
            continue
        done += 1
        warned = [e for e in z.it.events if e.kind == "warn"]
        if info == 0 and len(warned) < 3:
            c.bad(rule, name, f"{len(warned)} warnings for 3 spectra that did not converge: {story(P)}", where)
            return
    c.decide(True if state is None and done else None, rule, name, state or f"{done} paths", where)


def walk(mk, info):
    def make():
        z = mk()
        return z

    def bind(z):
        ask = z.oracle

        def oracle(it, cond):
            v = value(cond, info)
            return bool(v) if v is not None else ask(it, cond)
        z.oracle = oracle
        return dict(fields=z.tuple([z.arr("t0"), z.arr("t1")]), cls=z.tuple([z.arr(f"cl{k}", (3,)) for k in range(3)]))
    return paths(make, bind)


def value(n, info):
    """Value of an expression of the status."""
    if n.op == "const":
        return n.data
    if n.op in ("index", "elem", "item") and n.args[0].op == "call" and n.args[0].data[0] == "glass.grf._solver:solve":
        k = n.args[1].data if n.op == "index" and n.args[1].op == "const" else n.data[0] if n.data else None
        return info if k in (2, -1) else None
    vs = [value(a, info) for a in n.args]
    if not vs or any(v is None for v in vs):
        return None
    if n.op == "cmp":
        a, b = vs
        return {"==": a == b, "<": a < b, "<=": a <= b}.get(n.data)
    if n.op == "not":
        return not vs[0]
    if n.op == "and":
        return all(vs)
    if n.op == "or":
        return any(vs)
    if n.op == "bin" and n.data in ("&", "|", "+", "-"):
        a, b = vs
        return {"&": a & b, "|": a | b, "+": a + b, "-": a - b}[n.data]
    if n.op == "call" and n.data[0] in ("builtins.bool", "builtins.int"):
        return vs[0]
    return None


# ------------------------------------------------- nearest correlation
def clip_shape(it, kw, depth):
    return it.shape(kw.get("cov", next(iter(kw.values()))), depth)


def nearest(c, shape, niter):
    q, rule = "glass.algorithm:nearcorr", "a matrix that was not found within tolerance is reported"
    where = loc(c, q)
    mk = fresh(c, "iteration", "correlation", primitives={CLIP}, rules={CLIP: clip_shape})
    name = f"matrices of shape {shape}, {niter} iterations"
    state, done = None, 0
    for P in paths(mk, lambda z: dict(a=z.arr("a", shape), niter=niter, tol=z.arr("tol")), depth=8):
        z = P.case
        if z.fails:
            continue
        if P.cut:
            if all(reaches(a, bound("tol")) and not t for a, t in P.trace[-4:]):
                c.bad(rule, name, "iterations go on beyond the limit", where)
                return
            state = "more decisions than expected"
            continue
        if z.lost:
            state = z.why()
            continue
        done += 1
        if any(e.kind == "warn" for e in z.it.events):
            continue
        tests = comparisons(P.trace, "tol")
        if not tests:
            c.bad(rule, name, f"no warning although no matrix was within tolerance: {story(P)}", where)
            return
        ms = [(a, within(a, s)) for a, s, _ in tests]
        if not any(m is not False for _, m in ms):
            c.bad(rule, name, f"no warning although no matrix was within tolerance: {story(P)}", where)
            return
        if any(m is None for _, m in ms):
            state = show(tests[-1][0], 4)
            continue
        good = [(a, m) for a, m in ms if m is not False]
        a, m = good[-1]
        if m == "nan":
            c.bad(rule, name, f"no warning for a matrix of NaN: {show(a, 3)}", where)
            return
        if m == "any" and len(shape) > 2:
            c.bad(rule, name, f"no warning if only one of the matrices is within tolerance: {show(a, 3)}", where)
            return
        of = set(outermost(z.result, calls(CLIP)))
        if of and not of & set(outermost(a, calls(CLIP))):
            c.bad(rule, name, f"the matrix returned is not the one tested in {show(a, 3)}", where)
            return
        if not of:
            state = show(z.result, 3)
    c.decide(True if state is None and done else None, rule, name, state or f"{done} paths", where)


def within(a, s):
    """What a decided condition says about norms and tolerance: True, False, "any", "nan" or None."""
    kind = None
    if a.op == "call" and a.data[0].rpartition(".")[2] in ("all", "any") and a.args:
        kind = a.data[0].rpartition(".")[2]
        a = a.args[0]
    elif a.op == "mcall" and a.data[0] in ("all", "any"):
        kind = a.data[0]
        a = a.args[0]
    neg = False
    while a.op == "not" or a.op == "un" and a.data == "~":
        a, neg = a.args[0], not neg
    if a.op != "cmp" or a.data not in ("<", "<="):
        return None
    l, h = (reaches(x, bound("tol")) is not None for x in a.args)
    if l == h:
        return None
    small = h != neg                        # elements say "within tolerance"
    if kind == "all":
        if small:
            return "nan" if s and neg else s    # all within
        return False if s else "any"            # not all outside: some within
    if kind == "any":
        if small:
            return "any" if s else False
        return False if s else "nan" if not neg else True
    return (s if h else "nan" if not s else False) if not neg else None
