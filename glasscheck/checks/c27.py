"""A monopole that is held fixed stays fixed.

The solver is evaluated along its paths for known numbers of multipoles and iterations, with symbolic
spectra and tolerances: on each path the first element of the returned spectrum is compared with the
monopole asked for, and the first elements of everything that convergence is decided from must be
constants.
"""

from ..ir import show
from ..known import Case
from ..paths import fresh, paths

ASSUMPTIONS = ["Numbers of multipoles, iterations and step reductions are those enumerated; spectra, tolerances and transformations are arbitrary.",
               "The transforms between spectra and correlations and the correlations of transformed fields are any functions of their arguments."]
GRF = {"glass.grf._core:corr", "glass.grf._core:icorr", "glass.grf._core:dcorr"}
TRANSFORMS = {"transformcl.corrtocl", "transformcl.cltocorr"}
REDUCE = {"max", "sum", "mean", "amax", "min", "amin", "norm", "std", "median", "nanmax", "any", "all"}


def first(it, kw, depth):
    return it.shape(next(iter(kw.values())), depth)


def last(it, kw, depth):
    return it.shape(list(kw.values())[-1], depth)


RULES = {**{t: first for t in TRANSFORMS}, **{f: last for f in GRF}}


def solver(c):
    mk = fresh(c, "iteration", "spectrum", primitives=GRF, rules=RULES)

    def make():
        z = mk()
        z.opaque = TRANSFORMS | GRF
        return z
    return make


def loc(c, q):
    f = c.project.find_func(q)
    return (f[0].rel, f[2].lineno, q.partition(":")[2]) if f else None


def check(c):
    for monopole in ("given", 0.0):
        for initial in (None, 2, 3, 5):
            for pad in (0, 4):
                for maxiter in (1, 2):
                    if maxiter == 1 or pad and initial in (None, 5):
                        c.section(fixed, c, monopole, initial, pad, maxiter)
    c.section(zero, c)
    for first in (0.0, 2.0, 1e-6, -0.5):
        for later in (1.0, 0.0):
            c.section(only, c, first, later)


def reductions(n, seen):
    """Arrays that are reduced to a number inside a condition."""
    if n.id in seen:
        return
    seen.add(n.id)
    if n.op == "call" and n.data[0].rpartition(".")[2] in REDUCE and n.args:
        yield n.args[0]
        return
    if n.op == "mcall" and n.data[0] in REDUCE:
        yield n.args[0]
        return
    for a in n.args:
        yield from reductions(a, seen)


def fixed(c, monopole, initial, pad, maxiter):
    rule = "the monopole is the one asked for"
    name = f"monopole {monopole}, {'no initial solution' if initial is None else f'initial solution of length {initial}'}, padding {pad}, {maxiter} iterations"
    where = loc(c, "glass.grf._solver:solve")
    n = 3
    state = "ok"
    detail = ""
    done = 0
    seen = set()

    def bind(z):
        return dict(cl=z.arr("cl", (n,)), pad=pad, maxiter=maxiter, monopole=z.arr("monopole") if monopole == "given" else monopole,
                    initial=None if initial is None else z.arr("initial", (initial,)))
    for P in paths(solver(c), bind, depth=9 if maxiter == 1 else 10):
        z = P.case
        z.trace = P.trace
        if P.cut:
            continue
        if z.fails:
            continue
        if z.lost:
            state, detail = "unk", z.why()
            continue
        res = z.items()
        if res is None or len(res) != 3:
            state, detail = "unk", show(z.result, 3)
            continue
        done += 1
        want = z.el(z.b["monopole"])
        v = z.el(res[0], 0)
        r = z.same(v, want)
        if r is False:
            c.bad(rule, name, f"the returned spectrum starts with {z.show(v)} after {story(P)}", where)
            return
        if r is None:
            state, detail = "unk", f"first element {z.show(v)}"
        for a in calls(z, "transformcl.cltocorr"):
            x = next(iter(a.args))
            if x.id in seen:
                continue
            seen.add(x.id)
            t = z.A.of(z.el(x, 0))
            if any(z.A.eq(t, z.A.of(y)) for y in (z.const(0), want, z.el(z.b["cl"], 0))):
                continue
            if z.A.understood(t, z.ok):
                c.bad(rule, name, f"a step is computed from the residual of the monopole: {z.show(t)} in {show(a, 3)}", where)
                return
            state, detail = "unk", f"{show(a, 4)}: {z.show(t)}"
        for cond, _ in P.trace:
            for a in reductions(cond, set()):
                if a.id in seen:
                    continue
                seen.add(a.id)
                if z.it.shape(a) != (n,) or a.op == "call" and a.data[0].rpartition(".")[2] in ("isfinite", "isnan"):
                    continue
                for e in branches(z.el(a, 0)):
                    t = z.A.of(e)
                    if t.is_const():
                        continue
                    if z.A.understood(t, z.ok):
                        c.bad(rule, name, f"convergence is decided from the monopole: {z.show(t)} in {show(cond, 3)}", where)
                        return
                    state, detail = "unk", f"{show(a, 4)}: {z.show(t)}"
    if state == "ok" and done:
        c.ok(rule, name, f"{done} paths, {len(seen)} reductions", where)
    else:
        c.unk(rule, name, detail or "no path", where)


def calls(z, name):
    """Calls of a function that the result or a condition depends on."""
    seen, stack = set(), [z.result, *(n for n, _ in z.trace)]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "call" and n.data[0] == name and n.args:
            yield n
        stack.extend(n.args)


def branches(e):
    """Values an element can take; functions of one number are looked through."""
    if e.op == "phi":
        return branches(e.args[1]) + branches(e.args[2])
    if e.op == "call" and e.data[0].rpartition(".")[2] in ("fabs", "abs", "absolute", "square", "real") and e.args:
        return branches(e.args[0])
    return [e]


def story(P):
    return ", ".join(f"{show(a, 2)[:40]} is {t}" for a, t in P.trace[:4])


def zero(c):
    rule = "a zero monopole is held at zero"
    where = loc(c, "glass.fields:solve_gaussian_spectra")
    mk = fresh(c, "iteration", "spectra", primitives={"glass.grf._solver:solve"})
    state, done = None, 0
    for P in paths(mk, lambda z: dict(fields=z.tuple([z.arr("t0"), z.arr("t1")]), cls=z.tuple([z.arr(f"cl{k}", (3 + k,)) for k in range(3)]))):
        z = P.case
        if P.cut or z.fails:
            continue
        if z.lost:
            state = z.why()
            continue
        xs = z.items()
        if xs is None or len(xs) != 3:
            state = show(z.result, 3)
            continue
        for k, x in enumerate(xs):
            cl = z.b["cls"].args[k]
            zeros = [(cond, t) for cond, t in P.trace if cond.op == "cmp" and cond.data in ("==", "!=") and firstof(z, cond, cl)]
            if not zeros and not any(before(cond, cl) for cond, _ in P.trace):
                call = solvecall(x)     # whatever the monopole is
                m = dict(zip(call.data[1], call.args)).get("monopole") if call is not None else None
                if call is not None and (m is None or m.op == "const" and (m.data is None or m.data != 0)):
                    c.bad(rule, "solve_gaussian_spectra", f"spectrum {k} is solved with monopole {show(m, 2) if m is not None else None} whether or not its monopole is zero", where)
                    return
            if len(zeros) != 1:
                state = f"conditions on the monopole of spectrum {k}: {[show(a, 3) for a, _ in P.trace]}"
                continue
            cond, t = zeros[0]
            call = solvecall(x)
            if call is None:
                state = show(x, 4)
                continue
            if (cond.data == "==") != t:
                done += 1
                continue
            kw = dict(zip(call.data[1], call.args))
            m = kw.get("monopole")
            if m is None or m.op == "const" and (m.data is None or m.data != 0):
                c.bad(rule, "solve_gaussian_spectra", f"spectrum {k} with zero monopole is solved with monopole {show(m, 2) if m is not None else None}", where)
                return
            if m.op != "const" and not z.A.of(m).zero() and not firstelement(z, m, cl):
                state = f"monopole {show(m, 3)}"
                continue
            done += 1
    c.decide(True if state is None and done else None, rule, "solve_gaussian_spectra", state or f"{done} spectra", where)


def only(c, first, later):
    """Whether a given spectrum is solved with its monopole held."""
    rule = "only a zero monopole is held at zero"
    name = f"spectrum {(first, later, 1.0)}"
    where = loc(c, "glass.fields:solve_gaussian_spectra")
    mk = fresh(c, "iteration", "spectra", primitives={"glass.grf._solver:solve"})
    state, done = None, 0
    for P in paths(mk, lambda z: dict(fields=z.tuple([z.arr("t0")]), cls=z.tuple([z.carr((3,), (first, later, 1.0))]))):
        z = P.case
        if P.cut or z.fails:
            continue
        xs = None if z.lost else z.items()
        call = solvecall(xs[0]) if xs and len(xs) == 1 else None
        if call is None:
            state = z.why() if z.lost else show(z.result, 3)
            continue
        m = dict(zip(call.data[1], call.args)).get("monopole")
        if m is not None and m.op != "const":
            m = z.A.of(m)
            m = m.cval() if m.is_const() else m
        elif m is not None:
            m = m.data
        held = m is not None and not hasattr(m, "atoms") and abs(complex(m)) == 0
        if m is None and first == 0 or held and first != 0:
            c.bad(rule, name, f"solved with monopole {m}", where)
            return
        if m is not None and not held:
            state = f"monopole {m}"
            continue
        done += 1
    c.decide(True if state is None and done else None, rule, name, state or f"{done} paths", where)


def firstelement(z, n, cl):
    return n.op in ("index", "el") and z.el(n) is z.el(cl, 0)


def firstof(z, cond, cl):
    a, b = cond.args
    return any(y.op == "const" and y.data == 0 and firstelement(z, x, cl) for x, y in ((a, b), (b, a)))


def before(n, cl):
    """Whether a condition depends on a spectrum other than through its solution."""
    stack, seen = [n], set()
    while stack:
        x = stack.pop()
        if x is cl:
            return True
        if x.id not in seen and not (x.op == "call" and x.data[0] == "glass.grf._solver:solve"):
            seen.add(x.id)
            stack += x.args
    return False


def solvecall(x):
    while x.op in ("index", "elem", "item", "getitem") and x.args:
        x = x.args[0]
    return x if x.op == "call" and x.data[0] == "glass.grf._solver:solve" else None
