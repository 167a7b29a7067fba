"""Guard facts: which conditions hold wherever a construct is reached.

Path conditions are brought into a normal form over comparison variables (the
exact difference of both sides), boolean variables and quantified element
comparisons; implication is decided by enumerating the order types of the
finitely many variables.
"""

from __future__ import annotations

from fractions import Fraction
from itertools import product

from .alg import Alg

NAN = object()
LIMIT = 200_000


class Facts:
    def __init__(self, alg=None, integers=None):
        self.alg = alg or Alg()
        self.vars = {}      # key -> index
        self.kinds = []     # index -> ('num', integer?) | ('bool',) | ('enum',)
        self.desc = []
        self.integers = integers or (lambda rf: False)

    def var(self, key, kind, desc):
        i = self.vars.get(key)
        if i is None:
            i = len(self.kinds)
            self.vars[key] = i
            self.kinds.append(kind)
            self.desc.append(desc)
        return i

    # ------------------------------------------------------ conversion
    def form(self, n, pol=True):
        """Formula of the truth value of a node: nested ('and'|'or', [..]) | ('lit', var, op, value, pol) | bool"""
        if not pol:
            return neg(self.form(n, True))
        if n.op == "const":
            return bool(n.data)
        if n.op == "not":
            return neg(self.form(n.args[0]))
        if n.op in ("and", "or"):
            return (n.op, [self.form(a) for a in n.args])
        if n.op == "bin" and n.data in ("&", "|"):
            return ("and" if n.data == "&" else "or", [self.form(a) for a in n.args])
        if n.op == "un" and n.data == "~":
            return neg(self.form(n.args[0]))
        if n.op == "phi":
            c, a, b = n.args
            fc = self.form(c)
            return ("or", [("and", [fc, self.form(a)]), ("and", [neg(fc), self.form(b)])])
        if n.op == "cmp":
            r = self.compare(n)
            if r is not None:
                return r
        if n.op == "call":
            f, names = n.data
            base = f.rpartition(".")[2]
            if base in ("logical_not",) and n.args:
                return neg(self.form(n.args[0]))
            if base in ("logical_and", "logical_or") and len(n.args) == 2:
                return (base[8:], [self.form(a) for a in n.args])
            if base == "bool" and len(n.args) == 1:
                return self.form(n.args[0])
            if base in ("any", "all") and n.args:
                return self.quant(base, n.args[0], n)
        if n.op == "mcall" and n.data[0] in ("any", "all") and len(n.args) == 1:
            return self.quant(n.data[0], n.args[0], n)
        if n.op == "tuple":
            return bool(n.args)
        return ("lit", self.var(("bool", n.id), ("bool",), n), "is", True, True)

    def quant(self, q, c, n):
        if c.op == "un" and c.data == "~":
            return neg(self.quant("all" if q == "any" else "any", c.args[0], n))
        if c.op == "not":
            return neg(self.quant("all" if q == "any" else "any", c.args[0], n))
        if q == "any" and c.op == "bin" and c.data == "|":
            return ("or", [self.quant(q, a, n) for a in c.args])
        if q == "all" and c.op == "bin" and c.data == "&":
            return ("and", [self.quant(q, a, n) for a in c.args])
        if c.op == "cmp" and c.data in ("<", "<=", "==") and len(c.args) == 2:
            lit = self.compare(c)
            if isinstance(lit, tuple) and lit[0] == "lit":
                # exists p REL t  <=>  not forall p (not REL) t
                _, v, op, t, pol = lit
                if q == "all":
                    pol = not pol
                op, pol = canon_rel(op, pol)
                k = self.var(("any", v, op, t, pol), ("bool",), n)
                return ("lit", k, "is", True, q == "any")
        return ("lit", self.var((q, n.id), ("bool",), n), "is", True, True)

    def compare(self, n):
        op = n.data
        if len(n.args) != 2:
            return None
        a, b = n.args
        if op == "is":
            if b.op == "const" and b.data is None:
                return ("lit", self.var(("none", a.id), ("bool",), n), "is", True, True)
            return None
        if op == "in" and b.op in ("tuple", "list", "set") and all(x.op == "const" for x in b.args):
            return ("or", [self.equal(a, x.data) for x in b.args])
        if op not in ("<", "<=", "=="):
            return None
        for x, y in ((a, b), (b, a)):
            if y.op == "const" and isinstance(y.data, (str, bool)) and op == "==":
                return self.equal(x, y.data)
        for x in (a, b):
            if x.op in ("tuple", "list", "dict", "set", "fstr", "slice") or (x.op == "const" and not isinstance(x.data, (int, float))):
                return None
        try:
            d = self.alg.sub(self.alg.of(a), self.alg.of(b))
        except Exception:
            return None
        if d.is_const():
            c = d.cval()
            return {"<": c < 0, "<=": c <= 0, "==": c == 0}[op]
        if d.d.is_const():
            p = d.n.scale(1 / d.d.cval())
            c = p.t.get((), Fraction(0))
            q = dict(p.t)
            q.pop((), None)
            from .alg import Poly, RF
            p = Poly(q)
            lead = p.t[p.lead()]
            p = p.scale(1 / lead)
            t = -c / lead
            flip = lead < 0
            rf = RF(p)
        else:
            rf, t, flip = d, Fraction(0), False
            if d.n.t[d.n.lead()] < 0:
                rf, flip = self.alg.negate(d), True
        key = ("num", self.alg.fn("compared", (rf,)))
        v = self.var(key, ("num", bool(self.integers(rf))), rf)
        if flip:
            op = {"<": ">", "<=": ">=", "==": "=="}[op]
        return ("lit", v, op, t, True)

    def equal(self, x, val):
        v = self.var(("enum", x.id), ("enum",), x)
        return ("lit", v, "==", val, True)

    # ------------------------------------------------------ implication
    def pc(self, pc):
        return ("and", [self.form(c, p) for c, p in pc])

    def entails(self, premise, goal, nan=True):
        """True, or a counterexample as a dict, or None if there are too many cases."""
        lits = []
        collect(premise, lits)
        collect(goal, lits)
        used = {}
        for _, v, op, t, _p in lits:
            used.setdefault(v, set()).add(t)
        # quantified variables: any(p<0) and any(p<1) are related only by the lattice; left independent
        doms = []
        order = sorted(used)
        for v in order:
            k = self.kinds[v]
            if k[0] == "bool":
                doms.append([True, False])
            elif k[0] == "enum":
                doms.append(sorted(used[v], key=str) + [NAN])
            else:
                ts = sorted(used[v])
                if k[1]:
                    s = [ts[0].__floor__() - 1]
                    for a in ts:
                        for x in (a.__floor__(), a.__ceil__(), a.__floor__() + 1):
                            if x not in s:
                                s.append(x)
                else:
                    s = [ts[0] - 1]
                    for i, a in enumerate(ts):
                        s.append(a)
                        s.append((a + ts[i + 1]) / 2 if i + 1 < len(ts) else a + 1)
                    if nan:
                        s.append(NAN)
                doms.append(s)
        n = 1
        for d in doms:
            n *= len(d)
        if n > LIMIT:
            return None
        for vals in product(*doms):
            env = dict(zip(order, vals))
            if ev(premise, env) and not ev(goal, env):
                return env
        return True

    def explain(self, env):
        out = []
        for v, x in env.items():
            d = self.desc[v]
            s = self.alg.show(d) if hasattr(d, "n") else repr(d)
            out.append(f"{s} = {'nan/other' if x is NAN else x}")
        return "; ".join(out)


def canon_rel(op, pol):
    return op, pol


def neg(f):
    if isinstance(f, bool):
        return not f
    if f[0] == "lit":
        return (*f[:4], not f[4])
    return ("or" if f[0] == "and" else "and", [neg(x) for x in f[1]])


def collect(f, out):
    if isinstance(f, bool):
        return
    if f[0] == "lit":
        out.append(f)
        return
    for x in f[1]:
        collect(x, out)


def ev(f, env):
    if isinstance(f, bool):
        return f
    if f[0] == "lit":
        _, v, op, t, pol = f
        x = env[v]
        if op == "is":
            r = x is t or x == t
        elif x is NAN:
            r = False
        elif op == "==":
            r = x == t
        elif op == "<":
            r = x < t
        elif op == "<=":
            r = x <= t
        elif op == ">":
            r = x > t
        else:
            r = x >= t
        return r if pol else not r
    return all(ev(x, env) for x in f[1]) if f[0] == "and" else any(ev(x, env) for x in f[1])
