"""All functions agree on the order of angular power spectra.

The order is: spectrum of fields i >= j at position i (i + 1) / 2 + i - j.  Every function on
sequences of spectra is evaluated for sequences of known length whose spectra are symbols of known
(also unequal and zero) lengths: loops over fields are unrolled, index arrays are constants, and
every element of the results is traced back to the element of the spectrum it comes from.  The
index formulas of lookup are in addition compared as polynomials for arbitrary field numbers.
"""

from ..alg import Alg
from ..deps import reaches
from ..interp import Config
from ..interp import analyse as generic
from ..ir import Graph, show
from ..known import Case, verdict
from ..util import HP, symbols, with_specs

ASSUMPTIONS = ["Index formulas are exact for the numbers of fields analysed (bounded; lookup for all numbers of fields)."]
F = "glass.fields:"


def pos(i, j):
    i, j = max(i, j), min(i, j)
    return i * (i + 1) // 2 + i - j


def order(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def loc(c, q):
    f = c.project.find_func(F + q)
    return (f[0].rel, f[2].lineno, q) if f else None


def spectra(z, n, lengths=None):
    k = n * (n + 1) // 2
    return [z.arr(f"cl{i}", (lengths[i % len(lengths)] if lengths else 3,)) for i in range(k)]


def same_items(z, xs, want):
    """Pairs of items of sequences, or None if the structure is not known."""
    if xs is None:
        return None
    if len(xs) != len(want):
        return [(f"item {len(want)}", z.const(len(xs)), z.const(len(want)))]
    out = []
    for k, (x, w) in enumerate(zip(xs, want)):
        if isinstance(w, tuple):
            ys = z.items(x)
            if ys is None or len(ys) != len(w):
                return None
            out += [(f"item {k}.{m}", y, v if hasattr(v, "op") else z.const(v)) for m, (y, v) in enumerate(zip(ys, w))]
        else:
            out.append((f"item {k}", x, w))
    return out


def elements(z, x, shape, want, label=""):
    """Pairs for every element of an array that must have this shape."""
    s = z.it.shape(x)
    if s is None or not all(isinstance(d, int) for d in s):
        return None
    if tuple(s) != tuple(shape):
        return [(f"{label}shape", z.tuple([z.const(d) for d in s]), z.tuple([z.const(d) for d in shape]))]
    return [(f"{label}{list(ix)}", v, want(*ix)) for ix, v in z.E.all(x)]


def at(z, cl, k):
    s = cl.meta["shape"][0]
    return z.el(cl, k) if k < s else z.const(0)


def check(c):
    top = 9 if c.tier == "thorough" else 5
    for n in range(1, top + 1):
        c.section(small, c, n)
    for n in range(1, (7 if c.tier == "thorough" else 4) + 1):
        c.section(arrays, c, n)
    c.section(lookup, c)
    c.section(enumeration, c, 60 if c.tier == "quick" else 400)


def small(c, n):
    k = n * (n + 1) // 2
    z = Case(c, "spectra", "enum")
    cls = spectra(z, n)
    z.run(cls=z.tuple(cls))
    verdict(c, "enumeration follows the order", f"enumerate_spectra, {n} fields",
            same_items(z, z.items(), [(i, j, cls[pos(i, j)]) for i, j in order(n)]), z, loc(c, "enumerate_spectra"))
    z = Case(c, "spectra", "indices").run(n=n)
    verdict(c, "list of indices follows the order", f"spectra_indices, {n} fields", same_items(z, z.items(), order(n)), z,
            loc(c, "spectra_indices"))
    z = Case(c, "spectra", "count").run(k=k)
    verdict(c, "number of fields from number of spectra", f"{k} spectra", None if z.result is None else [("number", z.result, z.const(n))],
            z, loc(c, "nfields_from_nspectra"))
    for i in range(n):
        for j in range(n):
            z = Case(c, "spectra", "look")
            cls = spectra(z, n)
            z.run(cls=z.tuple(cls), i=i, j=j)
            if n == top_of(c):
                verdict(c, "lookup follows the order", f"getcl({i}, {j})", [("spectrum", z.result, cls[pos(i, j)])], z, loc(c, "getcl"))
    hp = [(i + m, i) for m in range(n) for i in range(n - m)]
    for prog, want, q in (("to_healpix", [pos(*t) for t in hp], "glass_to_healpix_spectra"),
                          ("to_glass", [hp.index(t) for t in order(n)], "healpix_to_glass_spectra"),
                          ("both_ways", list(range(k)), "healpix_to_glass_spectra")):
        z = Case(c, "spectra", prog)
        cls = spectra(z, n)
        z.run(cls=z.tuple(cls))
        verdict(c, "reordering visits every pair once" if prog != "both_ways" else "reordering back undoes reordering",
                f"{q}, {n} fields", same_items(z, z.items(), [cls[m] for m in want]), z, loc(c, q))


def top_of(c):
    return 9 if c.tier == "thorough" else 5


def arrays(c, n):
    k = n * (n + 1) // 2
    for lengths in ([3], [3, 1, 4, 2]):
        what = f"{n} fields, {'equal' if len(lengths) == 1 else 'unequal'} lengths"
        for lmax in (None, 1, 5):
            z = Case(c, "spectra", "cov")
            cls = spectra(z, n, lengths)
            z.run(cls=z.tuple(cls), lmax=lmax)
            size = max(x.meta["shape"][0] for x in cls) if lmax is None else lmax + 1
            verdict(c, "covariance matrix follows the order", f"cov_from_spectra, {what}, lmax {lmax}",
                    None if z.result is None else elements(z, z.result, (size, n, n), lambda l, i, j: at(z, cls[pos(i, j)], l)), z,
                    loc(c, "cov_from_spectra"))
            if lmax is not None and n > 1:
                for i, j in ((n - 1, 0), (0, n - 1), (n - 1, n - 1)):
                    z = Case(c, "spectra", "look_lmax")
                    cls = spectra(z, n, lengths)
                    z.run(cls=z.tuple(cls), i=i, j=j, lmax=lmax)
                    verdict(c, "lookup with a limit is the same spectrum", f"getcl({i}, {j}, lmax={lmax}), {what}",
                            None if z.result is None else elements(z, z.result, (lmax + 1,), lambda l: at(z, cls[pos(i, j)], l)), z,
                            loc(c, "getcl"))
        for nc in range(n):
            z = Case(c, "spectra", "rows")
            cls = spectra(z, n, lengths)
            size = max(x.meta["shape"][0] for x in cls)
            z.run(cls=z.tuple(cls), nl=size, nf=n, nc=nc)
            xs = z.items()
            pairs = None
            if xs is not None and len(xs) != n:
                pairs = [("rows", z.const(len(xs)), z.const(n))]
            elif xs is not None:
                pairs = []
                half = z.A.C(1)
                half = z.A.div(half, z.A.C(2))
                for j, x in enumerate(xs):
                    e = elements(z, x, (size, nc + 1), lambda l, m, j=j: z.A.mul(half, z.A.of(at(z, cls[pos(j, j - m)], l))) if m <= j
                                 else z.const(0), f"row {j} ")
                    pairs = None if e is None or pairs is None else pairs + e
            verdict(c, "covariance rows follow the order", f"cls2cov, {what}, {nc} correlations", pairs, z, loc(c, "cls2cov"))
            z = Case(c, "spectra", "disc")
            cls = spectra(z, n, lengths)
            z.run(cls=z.tuple(cls), ncorr=nc)
            xs = z.items()
            pairs = None if xs is None else [] if len(xs) == k else [("spectra", z.const(len(xs)), z.const(k))]
            if xs is not None and len(xs) == k:
                for (i, j), x in zip(order(n), xs):
                    keep = i - j <= nc
                    e = elements(z, x, cls[pos(i, j)].meta["shape"] if keep else (0,), lambda l, i=i, j=j: at(z, cls[pos(i, j)], l),
                                 f"({i}, {j}) ")
                    pairs = None if e is None or pairs is None else pairs + e
            verdict(c, "truncation keeps the correlations asked for", f"discretized_cls, {what}, ncorr {nc}", pairs, z,
                    loc(c, "discretized_cls"))
        for prog, s1, s2 in (("eff1", (n,), None), ("eff2", (n,), (n,)), ("eff1", (n, 2), None), ("eff2", (n, 2), (n,))):
            z = Case(c, "spectra", prog)
            cls = spectra(z, n, lengths)
            size = max(x.meta["shape"][0] for x in cls)
            w1 = z.arr("w1", s1)
            w2 = z.arr("w2", s2) if s2 else w1
            z.run(cls=z.tuple(cls), w1=w1, **({"w2": w2} if s2 else {}))

            def want(*ix):
                l, a, b = ix[-1], ix[:len(s1) - 1], ix[len(s1) - 1:-1]
                A = z.A
                r = A.C(0)
                for i in range(n):
                    for j in range(n):
                        t = A.mul(A.of(z.el(w1, i, *a)), A.of(z.el(w2, j, *b)))
                        r = A.add(r, A.mul(t, A.of(at(z, cls[pos(i, j)], l))))
                return r
            if n <= 3:
                verdict(c, "weighted sums use each pair with its spectrum", f"effective_cls, {what}, weights {s1} {s2 or ''}",
                        None if z.result is None else elements(z, z.result, (*s1[1:], *(s2 or s1)[1:], size), want), z,
                        loc(c, "effective_cls"))
    same = lambda it, kw, depth: it.shape(kw.get("cov", next(iter(kw.values()))), depth)
    for method, fn in (("clip", "glass.algorithm:cov_clip"), ("nearest", "glass.algorithm:cov_nearest")):
        z = Case(c, "spectra", "reg", primitives={"glass.algorithm:cov_clip", "glass.algorithm:cov_nearest"},
                 rules={"glass.algorithm:cov_clip": same, "glass.algorithm:cov_nearest": same})
        cls = spectra(z, n)
        z.run(cls=z.tuple(cls), method=method)
        xs = z.items()
        pairs = None
        if xs is not None:
            pairs = [("spectra", z.const(len(xs)), z.const(k))] if len(xs) != k else []
            for (i, j), x in zip(order(n), xs if not pairs else ()):
                for l, v in z.E.all(x) or []:
                    ok = v.op == "el" and v.args[0].op == "call" and v.args[0].data[0] == fn
                    good = ok and v.data in ((*l, i, j), (*l, j, i))
                    pairs.append((f"({i}, {j})", v, v if good else z.const(0) if ok else None))
        if pairs is not None and any(w is None for _, _, w in pairs):
            pairs = None
        bad = next((p for p in pairs or () if p[1] is not p[2]), None)
        if pairs and bad is not None and not z.lost:
            c.bad("regularised spectra follow the order", f"regularized_spectra {method}, {n} fields",
                  f"spectrum {bad[0]} is {show(bad[1], 4)}", loc(c, "regularized_spectra"))
        else:
            c.decide(True if pairs else None, "regularised spectra follow the order", f"regularized_spectra {method}, {n} fields",
                     z.why() if not pairs else f"{len(pairs)} values", loc(c, "regularized_spectra"))
    fieldpairs(c, n)


def paired(c, n, prog, q, prim, lengths):
    rule = "fields are those of the spectrum"
    z = Case(c, "spectra", prog, primitives={prim})
    cls = spectra(z, n, lengths)
    ts = [z.arr(f"t{i}") for i in range(n)]
    z.run(fields=z.tuple(ts), cls=z.tuple(cls))
    xs = z.items()
    name = f"{q}, {n} fields" + ("" if lengths is None else f", spectra of lengths {lengths}")
    if xs is None or z.lost:
        c.unk(rule, name, z.why(), loc(c, q))
        return
    if len(xs) != len(cls):
        c.bad(rule, name, f"{len(xs)} spectra are returned instead of {len(cls)}", loc(c, q))
        return
    res, detail = True, ""
    for (i, j), cl, x in zip(order(n), cls, xs):
        if cl.meta["shape"] == (0,):
            s = z.it.shape(x)
            if s != (0,):
                known = s is not None and all(isinstance(d, int) for d in s)
                res, detail = (False if known else None), f"spectrum ({i}, {j}), which is empty, becomes {show(x, 3)}"
                break
            continue
        call = x
        while call.op == "index" and call.args:
            call = call.args[0]
        kw = dict(zip(call.data[1], call.args)) if call.op == "call" and call.data[0] == prim else None
        if kw is None:
            plain = not reaches(x, lambda m: m in ts or m.op not in ("bin", "un", "const", "param"))
            res, detail = (False if plain else None), f"spectrum ({i}, {j}) is {show(x, 4)}"
            break
        vals = {kw.get("t1"), kw.get("t2") if not (kw.get("t2") is not None and kw["t2"].op == "const") else kw.get("t1")}
        if kw.get("cl") is not cl or vals != {ts[i], ts[j]}:
            plain = all(v is None or v.op in ("param", "const") for v in (kw.get("cl"), kw.get("t1"), kw.get("t2")))
            res, detail = (False if plain else None), f"spectrum ({i}, {j}) is computed as {show(call, 3)}"
            break
    c.decide(res, rule, name, detail or f"{len(xs)} spectra", loc(c, q))


def fieldpairs(c, n):
    """Which two fields are used with which spectrum."""
    for prog, q, prim in (("gauss", "compute_gaussian_spectra", "glass.grf._core:compute"),
                          ("solve", "solve_gaussian_spectra", "glass.grf._solver:solve")):
        for lengths in (None, (3, 0), (0, 2, 3), (1, 0)) if n > 1 else (None, (0,), (1,)):
            paired(c, n, prog, q, prim, lengths)
    cltovar = "transformcl.cltovar"
    z = Case(c, "spectra", "maps", primitives={F + "_generate_grf"})
    cls = spectra(z, n)
    ts = [z.arr(f"t{i}") for i in range(n)]
    z.run(fields=z.tuple(ts), cls=z.tuple(cls))
    q = "generate"
    calls = [e for e in z.it.events if e.kind == "extcall" and e.info.get("fn") == cltovar]
    args = [e.info["args"][0] for e in calls if e.info.get("args")]
    name = f"generate, {n} fields"
    if len(args) != n or z.it.gaps or not all(a in cls for a in args):
        c.unk("variances are those of the fields", name, f"{[show(a, 3) for a in args][:3]} {z.why()}", loc(c, q))
    else:
        good = all(a is cls[pos(i, i)] for i, a in enumerate(args))
        c.decide(good, "variances are those of the fields", name, ", ".join(show(a, 2) for a in args), loc(c, q))


def lookup(c):
    """Position of the spectrum of two fields as a polynomial, for every pair of fields."""
    p = with_specs(c.project, "spectra")
    g = Graph()
    q = "spec_spectra:look"
    s = symbols(p, g, q, notnull={"cls", "i", "j"})
    it = generic(p, q, Config(notnull={"cls", "i", "j"}, primitive_prefix=[HP]), bind=dict(s), graph=g)
    c.count(it)
    from ..alg import case_split
    x = it.result
    if x is None or it.gaps or it.broken:
        c.unk("lookup follows the order for all fields", "getcl", str(it.broken or it.gaps[:1]), loc(c, "getcl"))
        return
    for a, A, (u,) in case_split([x], limit=3, mk=lambda a: ParityAlg(assume=a)):
        at_ = {g.nodes[k]: v for k, v in a.items()}
        hi, lo = None, None
        for n, v in at_.items():
            if n.op == "cmp" and n.data in ("<", "<=") and {n.args[0], n.args[1]} == {s["i"], s["j"]}:
                small_, big = n.args
                hi, lo = (big, small_) if v else (small_, big)
        name = "getcl with " + (f"{show(hi, 1)} as the larger field" if hi is not None else "fields in any order")
        idx = None
        for k in u.atoms():
            f, args, _ = A.atoms_[k]
            if f == "index" and len(args) == 2:
                idx = args[1]
        if idx is None or hi is None:
            c.unk("lookup follows the order for all fields", name, A.show(u), loc(c, "getcl"))
            continue
        i, j = A.of(hi), A.of(lo)
        want = A.sub(A.add(A.div(A.mul(i, A.add(i, A.C(1))), A.C(2)), i), j)
        same = A.eq(idx, want)
        sure = A.understood(idx, lambda n, node: n != "leaf" or (node is not None and node.op in ("param", "const")))
        c.decide(True if same else False if sure and A.differ(idx, want) else None, "lookup follows the order for all fields", name,
                 A.show(idx), loc(c, "getcl"))


class ParityAlg(Alg):
    """Floor division of integer polynomials that the divisor always divides is exact."""

    def _of(self, n):
        if n.op == "bin" and n.data == "//":
            u, v = self.of(n.args[0]), self.of(n.args[1])
            if v.is_const() and v.cval().denominator == 1 and 2 <= v.cval() <= 8 and u.d.is_const() and self.divisible(u, int(v.cval())):
                return self.div(u, v)
        return super()._of(n)

    def divisible(self, u, k):
        import itertools
        t = {m: x / u.d.cval() for m, x in u.n.t.items()}
        if any(x.denominator != 1 for x in t.values()):
            return False
        atoms = sorted(u.n.atoms())
        if len(atoms) > 4 or any(self.atoms_[a][0] != "leaf" for a in atoms):
            return False
        for vals in itertools.product(range(k), repeat=len(atoms)):
            v = dict(zip(atoms, vals))
            total = 0
            for m, x in t.items():
                z = int(x)
                for a, e in m:
                    z *= v[a] ** e
                total += z
            if total % k:
                return False
        return True


def enumeration(c, n):
    """The index formula of the enumeration for long sequences."""
    z = Case(c, "spectra", "enum")
    k = n * (n + 1) // 2
    z.run(cls=z.tuple([z.const(float(m)) for m in range(k)]))
    xs = z.items()
    verdict(c, "enumeration follows the order", f"enumerate_spectra, {n} fields",
            same_items(z, xs, [(i, j, z.const(float(pos(i, j)))) for i, j in order(n)]), z, loc(c, "enumerate_spectra"))
