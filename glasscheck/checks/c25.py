"""Non-negative least squares stays feasible and improves.

The solver is followed along its paths for known numbers of columns and iterations: which coefficient
enters, which elements are negative and which one reaches zero first are enumerated, so that active
sets are known.  On every path the equations that are solved, the steps that are taken, the returned
coefficients and the condition under which the solver stops are compared with the method.
"""

import itertools

from ..alg import Alg, Exhausted, TooBig
from ..decide import Deciding
from ..ir import show
from ..paths import choice, fresh, paths
from .c27 import loc

ASSUMPTIONS = ["Numbers of rows, columns and iterations are those enumerated; the matrix, right-hand side and tolerance are arbitrary.",
               "Exact arithmetic: a coefficient that reaches zero is zero."]
BUDGET = 1_000_000
Q = "glass.algorithm:nnls"


def check(c):
    for n, maxiter in ((1, 1), (1, 2), (1, None), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)) + (((2, 4), (3, 3)) if c.tier == "thorough" else ()):
        c.section(follow, c, n, maxiter)


class Facts:
    """What the decisions of a path say about signs."""

    def __init__(self, A, trace):
        self.A = A
        self.pos, self.nonneg = [], []
        self.choices = []
        for cond, t in trace:
            if choice(cond):
                xs = [A.of(x) for x in cond.args]
                self.choices.append((cond.data[0][-3:], xs, xs[t]))
                for x in xs:
                    d = A.sub(xs[t], x)
                    self.nonneg.append(d if cond.data[0].endswith("max") else A.negate(d))
            elif cond.op == "cmp" and len(cond.args) == 2 and cond.data in ("<", "<=", "=="):
                d = A.sub(A.of(cond.args[1]), A.of(cond.args[0]))
                if cond.data == "==":
                    if t:
                        self.nonneg += [d, A.negate(d)]
                elif t:
                    (self.pos if cond.data == "<" else self.nonneg).append(d)
                else:
                    (self.nonneg if cond.data == "<" else self.pos).append(A.negate(d))

    def sign(self, r):
        """(at least zero, more than zero) if known."""
        A = self.A
        if r.is_const():
            return r.cval() >= 0, r.cval() > 0
        if any(A.eq(r, p) for p in self.pos):
            return True, True
        if any(A.eq(r, p) for p in self.nonneg):
            return True, None
        m = A.negate(r)
        if any(A.eq(m, p) for p in self.pos):
            return False, False
        if any(A.eq(m, p) for p in self.nonneg):
            return None, False
        return None, None


def force(A, c, trace):
    """Decisions that follow from earlier ones."""
    if c.op != "cmp" or c.data not in ("<", "<="):
        return None
    d = A.sub(A.of(c.args[1]), A.of(c.args[0]))
    ge, gt = Facts(A, [t for t in trace if not choice(t[0])]).sign(d)
    if c.data == "<":
        return gt
    return ge if ge is not None or gt is None or gt else None


def follow(c, n, maxiter):
    name = f"{n} columns, {maxiter or 'default number of'} iterations"
    where = loc(c, Q)
    rows = 2
    A = Alg(fill=True)
    mk = fresh(c, "iteration", "leastsquares")

    def make():
        z = mk()
        z.cls = Deciding
        z.mk = lambda: A
        t = z.arr("tol")
        A.subst[t.id] = A.of(z.g.mk("el", (t,), ()))
        return z
    rules = ["coefficients are not negative", "normal equations of the active set",
             "steps end at the first coefficient that reaches zero", "stops when no coefficient can improve"]
    notes = {}
    total = lost = 0
    A.budget = BUDGET if c.tier == "quick" else 20 * BUDGET
    try:
        for P in paths(make, lambda z: dict(a=z.arr("a", (rows, n)), b=z.arr("b", (rows,)), tol=z.arr("tol"), maxiter=maxiter), depth=14 if n < 3 else 12,
                       limit=1500, force=lambda it, cond, trace, options: force(A, cond, trace)):
            z = P.case
            if P.cut or z.lost and not z.fails:
                ok, detail = Path(c, z, P, n, rows).steps()
                if ok is False:
                    c.bad(rules[2], name, f"{detail} after {story(P)}", where)
                    return
            if P.cut or z.fails:
                continue
            if any("loop limit" in str(g) for g in z.it.gaps):
                c.bad(rules[2], name, f"the loop is not left after {story(P)}", where)
                return
            if z.lost:
                lost += 1
                notes.update(dict.fromkeys(rules, z.why()))
                if lost > 5:
                    break
                continue
            total += 1
            v = Path(c, z, P, n, rows)
            for r, f in zip(rules, (v.feasible, v.equations, v.steps, v.stop)):
                ok, detail = f()
                if ok is False:
                    c.bad(r, name, f"{detail} after {story(P)}", where)
                    return
                if ok is None:
                    notes[r] = detail
    except (Exhausted, TooBig):
        notes.update(dict.fromkeys(rules, "the expressions on a path are too large"))
    for r in rules:
        if not total:
            c.unk(r, name, notes.get(r, "no path is understood"), where)
        elif r in notes:
            c.unk(r, name, notes[r], where)
        else:
            c.ok(r, name, f"{total} paths")


def story(P):
    out = []
    for cond, t in P.trace:
        if choice(cond):
            out.append(f"{('smallest', 'largest')[cond.data[0].endswith('max')]} of {len(cond.args)} is number {t}")
        else:
            out.append(f"{show(cond, 3)} {'holds' if t else 'does not hold'}")
    return "; ".join(out) or "no decision"


class Path:
    def __init__(self, c, z, P, n, rows):
        self.c, self.z, self.P, self.n, self.rows = c, z, P, n, rows
        self.A = z.A
        self.trace = [(cond if choice(cond) else z.el(cond), t) for cond, t in P.trace]
        self.facts = Facts(self.A, self.trace)
        self.x = [z.el(z.result, j) for j in range(n)] if z.result is not None else []
        self.a = [[self.A.of(z.el(z.b["a"], i, j)) for j in range(n)] for i in range(rows)]
        self.bb = [self.A.of(z.el(z.b["b"], i)) for i in range(rows)]
        self.tol = self.A.of(z.el(z.b["tol"]))
        self.cols = {}

    def dot(self, u, v):
        r = self.A.C(0)
        for x, y in zip(u, v):
            r = self.A.add(r, self.A.mul(x, y))
        return r

    def column(self, j):
        return [r[j] for r in self.a]

    def ok(self, name, node):
        if name == "leaf":
            return node is not None and (node.op in ("const", "param") or node.op == "el" and (node.args[0].op == "param" or self.solution(node)))
        return False

    def solution(self, node):
        return node.op == "el" and node.args[0].op == "call" and node.args[0].data[0].endswith("linalg.solve")

    def known(self, r):
        return self.A.understood(r, self.ok)

    def columns(self, call):
        """Columns of the normal equations that are solved, None if not known, False if they are others."""
        if call.id in self.cols:
            return self.cols[call.id]
        self.cols[call.id] = None
        s = self.z.it.shape(call)
        m, v = call.args[:2]
        if s is None or len(s) != 1 or not isinstance(s[0], int) or self.z.it.shape(m) != (s[0], s[0]):
            return None
        rhs = [self.A.of(self.z.el(v, k)) for k in range(s[0])]
        out = []
        for r in rhs:
            j = next((j for j in range(self.n) if self.A.eq(r, self.dot(self.bb, self.column(j)))), None)
            if j is None:
                self.cols[call.id] = False if self.known(r) else None
                return self.cols[call.id]
            out.append(j)
        for p, q in itertools.product(range(s[0]), repeat=2):
            e = self.A.of(self.z.el(m, p, q))
            if not self.A.eq(e, self.dot(self.column(out[p]), self.column(out[q]))):
                self.cols[call.id] = False if self.known(e) else None
                return self.cols[call.id]
        self.cols[call.id] = tuple(out)
        return self.cols[call.id]

    def leaf(self, r):
        """The element of a solution this is, or None."""
        for a in r.atoms():
            node = self.A.atoms_[a][2]
            if node is not None and self.solution(node) and self.A.eq(r, self.A.A(a)):
                return node
        return None

    def leaves(self):
        """Elements of solutions that values and decisions are made of."""
        out = {}
        todo = [self.A.of(x) for x in self.x] + [self.A.of(a) for cond, _ in self.trace if cond.op in ("cmp", "call") for a in cond.args]
        for r in todo:
            for a in r.atoms():
                node = self.A.atoms_[a][2]
                if node is not None and self.solution(node):
                    out[node.id] = node
        return list(out.values())

    def feasible(self):
        for j, x in enumerate(self.x):
            r = self.A.of(x)
            ge, gt = self.facts.sign(r)
            if ge:
                continue
            if gt is False or ge is False:
                return False, f"coefficient {j} is {self.z.show(x)}, which is not positive,"
            if self.nonneg(x, r):
                continue
            if self.leaf(r) is not None:
                return False, f"coefficient {j} is {self.z.show(x)}, whose sign is not known,"
            s = self.step(r)
            if s is not None and s is not True:
                return False, f"coefficient {j} is {self.z.show(x)}: {s}"
            if s is None:
                return None, f"coefficient {j}: {self.z.show(x)}"
        return True, ""

    def nonneg(self, x, r):
        m = self.A.single(r, "max")
        return m is not None and any(self.facts.sign(u)[0] for u in m)

    def equations(self):
        res = True, ""
        for node in self.leaves():
            s = self.columns(node.args[0])
            if s is False:
                return False, f"{show(node.args[0], 4)} is not the solution of the normal equations"
            if s is None:
                res = None, show(node.args[0], 4)
        for j, x in enumerate(self.x):
            node = self.leaf(self.A.of(x))
            if node is not None:
                s = self.columns(node.args[0])
                if s and s[node.data[0]] != j:
                    return False, f"coefficient {j} is the solution for column {s[node.data[0]]}"
        return res

    def step(self, r, upto=None):
        """True if r is a coefficient after an allowed step, a complaint if it surely is not, None if not known."""
        A = self.A
        if not self.known(r):
            return None
        lv = self.leaves()
        before = self.before(lv, upto)
        at = A.value
        target = at(r)
        groups = {}
        for y in lv:
            groups.setdefault(y.args[0].id, []).append(y)
        for ys in groups.values():
            s = [A.of(y) for y in ys]
            down = [k for k in range(len(ys)) if self.facts.sign(A.negate(s[k]))[0]]
            for k in down:
                for u in before:
                    den = at(u) - at(s[k])
                    if not den:
                        continue
                    alpha = at(u) / den
                    for j in range(len(ys)):
                        for w in before:
                            if abs(at(w) + alpha * (at(s[j]) - at(w)) - target) > 1e-9 * (1 + abs(target)):
                                continue
                            alpha = A.div(u, A.sub(u, s[k]))
                            if not A.eq(r, A.add(w, A.mul(alpha, A.sub(s[j], w)))):
                                alpha = at(alpha)
                                continue
                            return self.first(alpha, s, [i for i in down if i != k], before)
            if not down:
                continue
        return "not a step towards a solution"

    def before(self, lv, upto=None):
        """Values coefficients may have had."""
        A = self.A
        out = [A.C(0)] + [A.of(y) for y in lv]
        for cond, _ in self.trace[:upto]:
            for a in cond.args if cond.op == "cmp" else ():
                r = A.of(a)
                if not any(A.atoms_[i][2] is None or not self.solution(A.atoms_[i][2]) for i in r.atoms()) and not any(A.eq(r, y) for y in out):
                    out.append(r)
        return out

    def first(self, alpha, s, others, before):
        """The step is no longer than to the zeros of the other coefficients that would turn negative."""
        A = self.A
        if not others:
            return True
        for kind, xs, chosen in self.facts.choices:
            if not A.eq(chosen, alpha):
                continue
            if kind == "max" and len(xs) > 1:
                return "the step is as long as to the last coefficient that reaches zero"
            if kind == "min":
                for i in others:
                    if not any(not A.sub(u, s[i]).zero() and any(A.eq(x, A.div(u, A.sub(u, s[i]))) for x in xs) for u in before):
                        return f"the step does not stop where {A.show(s[i])[:60]} is approached"
                return True
        for i in others:
            if not any(not A.sub(u, s[i]).zero() and self.facts.sign(A.sub(A.div(u, A.sub(u, s[i])), alpha))[0] for u in before):
                return "the step does not end at the first coefficient that reaches zero"
        return True

    def steps(self):
        res = True, ""
        for k, (cond, t) in enumerate(self.trace):
            if cond.op != "cmp":
                continue
            r = self.A.sub(self.A.of(cond.args[1]), self.A.of(cond.args[0]))
            if self.tol.atoms() & r.atoms():
                continue
            if not any(self.solution(self.A.atoms_[a][2]) for a in r.atoms() if self.A.atoms_[a][2] is not None):
                continue
            if self.leaf(r) is not None or self.leaf(self.A.negate(r)) is not None:
                continue
            s = self.step(r, k)
            if s is True:
                continue
            m = self.step(self.A.negate(r), k)
            if m is True:
                continue
            if s is None or self.order(r):
                res = (None, f"{show(cond, 4)}") if s is None else res
                continue
            return False, f"{s if 'not a' not in s else m}: {self.z.show(r)}"
        return res

    def order(self, r):
        """A comparison of two ratios, not a coefficient."""
        A = self.A
        lv = [A.of(y) for y in self.leaves()]
        before = [A.C(0)] + lv
        ratios = [A.div(u, A.sub(u, s)) for u in before for s in lv if not A.sub(u, s).zero()] + [A.C(1)]
        return any(A.eq(r, A.sub(x, y)) for x in ratios for y in ratios)

    def stop(self):
        """The last decision compares a gradient with the tolerance and no decision follows."""
        A = self.A
        if not self.trace:
            return True, ""
        cond, t = self.trace[-1]
        if cond.op != "cmp":
            return True, ""
        d = A.sub(A.of(cond.args[1]), A.of(cond.args[0]))
        if not self.tol.atoms() & d.atoms():
            return True, ""
        low = A.sub(self.tol, d) if t else A.add(self.tol, d)   # what is not larger than the tolerance
        if self.tol.atoms() & low.atoms():
            return True, ""   # the coefficient enters
        xs = [A.of(x) for x in self.x]
        res = [A.sub(b, self.dot(row, xs)) for row, b in zip(self.a, self.bb)]
        for j in range(self.n):
            if not xs[j].zero():
                continue
            g = self.dot(res, self.column(j))
            if A.eq(g, low) or self.below(g, low):
                continue
            if not self.known(low):
                return None, show(cond, 4)
            return False, f"the solver stops although coefficient {j} may improve the solution"
        return True, ""

    def below(self, g, low):
        A = self.A
        for kind, xs, chosen in self.facts.choices:
            if kind == "max" and A.eq(chosen, low) and any(A.eq(x, g) for x in xs):
                return True
        for p in self.facts.nonneg + self.facts.pos:
            if A.eq(p, A.sub(self.tol, g)):
                return True
        return False
