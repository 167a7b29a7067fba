"""Processing in chunks covers every element exactly once.

Each chunked function is evaluated for known lengths (around the borders of its chunks) or known
numbers per population with symbolic contents: chunk loops are unrolled, running offsets are
constants, and every output element next to a slice border is traced back to the elements of the
inputs and the random numbers it is made of.  Between borders a slice assigns uniformly, so the
elements next to the borders decide all of them.
"""

from ..core import Checker  # noqa: F401
from ..ir import show
from ..known import Case
from ..sources import Sources, borders

ASSUMPTIONS = ["Lengths and numbers per population are those enumerated (around chunk borders, empty populations included); contents are arbitrary.",
               "HEALPix lookups and interpolation act on each element separately."]
EW = {"np.interp": {"x"}, "xp.interp": {"x"}, "hp.ang2pix": {"theta", "phi"}}


def loc(c, q):
    f = c.project.find_func(q)
    return (f[0].rel, f[2].lineno, q.partition(":")[2]) if f else None


def check(c):
    deep = c.tier == "thorough"
    lengths = [0, 1, 2, 999, 1000, 1001, 9999, 10000, 10001, 20001, 25000]
    if deep:
        lengths += [5000, 8192, 19999, 20000, 30000, 30001, 50001, 65537, 100001]
    for n in lengths:
        c.section(shear, c, n)
    for n in [0, 1, 2, 999, 1000, 1001, 2000, 2001, 5000] + ([500, 1999, 3001, 10000, 10001, 20001] if deep else []):
        c.section(shells, c, n)
    for b in ((2, 1, 2, 3, 1, 3), (1,), (3, 3, 3), (4, 1, 9, 1), (5, 4, 3, 2, 1)):
        c.section(bins, c, b, (len(b),))
    c.section(bins, c, (2, 1, 2, 3, 1, 3), (2, 3))
    for counts, shape in (((3,), ()), ((0,), ()), ((2, 0, 3), (3,)), ((0, 0), (2,)), ((0, 1), (2,)), ((1, 2, 0, 3, 1, 1), (2, 3)), ((4, 1, 2), (3, 1))):
        c.section(populations, c, counts, shape)
    for case in pixels(deep):
        c.section(points, c, *case)
    for counts, shape in (((3,), ()), ((0,), ()), ((2, 0, 3), (3,)), ((1, 2, 0, 3), (2, 2))):
        c.section(uniform, c, counts, shape)


def elements(c, z, rule, name, q, shape, want, once=True, sample=None):
    """Every output element is made of what it should be made of.

    want(index) gives (needed, allowed): sources that must occur and, for each array that is
    distributed over the output, the elements that may occur."""
    where = loc(c, q)
    if z.fails:
        c.bad(rule, name, z.fails, where)
        return
    if z.lost or z.result is None:
        c.unk(rule, name, z.why(), where)
        return
    s = z.it.shape(z.result)
    if s is None or not all(isinstance(d, int) for d in s):
        c.unk(rule, name, f"shape of {show(z.result, 3)} is not known", where)
        return
    if tuple(s) != tuple(shape):
        c.bad(rule, name, f"the output has shape {s} instead of {tuple(shape)}", where)
        return
    S = Sources(z)
    used = {}
    unknown = ""
    idxs = sample if sample is not None else None
    pairs = [(ix, z.el(z.result, *ix)) for ix in idxs] if idxs is not None else z.E.all(z.result)
    for ix, x in pairs:
        src = S.of(x)
        if ("uninit",) in src:
            c.bad(rule, name, f"element {list(ix)} is never assigned", where)
            return
        lost = [t for t in src if t[0] == "?"]
        needed, allowed = want(ix, src)
        for t in src:
            if t[0] == "el" and t[1] in allowed and t not in allowed[t[1]]:
                c.bad(rule, name, f"element {list(ix)} is computed from {t[1]}{list(t[2])}", where)
                return
        miss = [t for t in needed if t not in src]
        if miss and not lost:
            t = miss[0]
            c.bad(rule, name, f"element {list(ix)} does not depend on {t[1]}{list(t[2]) if len(t) > 2 else ''}", where)
            return
        if lost:
            unknown = unknown or f"element {list(ix)}: {lost[0][1]}"
        if once:
            for t in src:
                if t[0] == "draw":
                    if used.setdefault(t, ix) != ix:
                        c.bad(rule, name, f"elements {list(used[t])} and {list(ix)} use the same random number", where)
                        return
    if unknown:
        c.unk(rule, name, unknown, where)
    else:
        c.ok(rule, name, f"{len(pairs)} elements", where)


def shear(c, n):
    for reduced in (True, False):
        z = Case(c, "chunks", "shear", elementwise=EW)
        arrs = {k: z.arr(k, (n,)) for k in ("lon", "lat", "eps")}
        maps = {k: z.arr(k, (3072,)) for k in ("kappa", "gamma1", "gamma2")}
        z.run(**arrs, **maps, reduced_shear=reduced)

        def want(ix, src):
            k = ix[0]
            need = [("el", a, (k,)) for a in arrs] + [("whole", m) for m in ("gamma1", "gamma2")]
            if reduced:
                need.append(("whole", "kappa"))
            return need, {a: {("el", a, (k,))} for a in arrs}
        elements(c, z, "chunks cover every element", f"galaxy_shear, {n} galaxies, reduced shear {reduced}", "glass.galaxies:galaxy_shear",
                 (n,), want, sample=[(k,) for k in borders(z, n)])


def shells(c, n):
    z = Case(c, "chunks", "shells", elementwise=EW)
    r = z.arr("redshifts", (n,))
    w = {k: z.arr(k, (4,)) for k in ("za1", "wa1", "za2", "wa2")}
    z.run(redshifts=r, **w)
    pv = {}
    if z.it.result is not None:
        for e in z.it.events:
            if e.kind == "draw":
                args = dict(zip(e.node.data[1], e.node.args[1:])) if len(e.node.data) > 2 else {}
                pv[e.node.data[-1]] = args.get("pvals", args.get("1"))
    S = [None]

    def want(ix, src):
        k = ix[0]
        S[0] = S[0] or Sources(z)
        inner = set()
        for t in src:
            if t[0] == "draw" and pv.get(t[1]) is not None and t[2]:
                inner |= set(S[0].of(z.el(pv[t[1]], *t[2])))
        inner = {t for t in inner if t[0] in ("el", "?")}
        bad = [t for t in inner if t[0] == "el" and t[1] == "redshifts" and t[2] != (k,)]
        draws = [t for t in src if t[0] == "draw"]
        need = []
        if bad:
            return [("probabilities of", bad[0][1], bad[0][2])], {}
        if draws and not any(t[0] == "?" for t in inner) and not any(t[0] == "el" and t[1] == "redshifts" for t in inner):
            need = [("el", "redshifts", (k,))]
        return need, {"redshifts": {("el", "redshifts", (k,))}}
    elements(c, z, "chunks cover every element", f"distribute, {n} redshifts", "glass.shells:distribute", (n,), want,
             sample=[(k,) for k in borders(z, n)])


def bins(c, labels, shape):
    z = Case(c, "chunks", "bins", elementwise=EW)
    keys = sorted(set(labels))[::-1]
    z.run(bins=z.carr(shape, labels), z=z.arr("z", (4,)), keys=z.tuple([z.const(k) for k in keys]),
          values=z.tuple([z.arr(f"nz{k}", (4,)) for k in keys]))

    def want(ix, src):
        pos = 0
        for i, d in zip(ix, shape):
            pos = pos * d + i
        mine = f"nz{labels[pos]}"
        other = {f"nz{k}": set() for k in keys if f"nz{k}" != mine}
        for t in src:
            if t[0] == "whole" and t[1] in other:
                return [("the distribution of its bin instead of", t[1])], other
        return [t for t in (("el", mine, (k,)) for k in range(4))], other
    elements(c, z, "every element is drawn for its own bin", f"redshifts_from_bins, bins {labels} {shape}", "glass.galaxies:redshifts_from_bins",
             shape, want)


def populations(c, counts, shape):
    total = sum(counts)
    owner = [p for p, k in enumerate(counts) for _ in range(k)]
    index = [()] if shape == () else None
    if index is None:
        import itertools
        index = list(itertools.product(*[range(d) for d in shape]))
    name = f"counts {counts} {shape}"
    for prog, q in (("gaussian", "glass.shapes:ellipticity_gaussian"), ("intnorm", "glass.shapes:ellipticity_intnorm")):
        for same in (True, False):
            z = Case(c, "chunks", prog, elementwise=EW)
            z.run(count=z.const(counts[0]) if shape == () else z.carr(shape, counts), sigma=z.arr("sigma", shape if same else ()))

            def want(ix, src):
                k = index[owner[ix[0]]]
                if not same:
                    return [], {}
                if not shape:
                    return [("scalar", "sigma")], {}
                return [("el", "sigma", k)], {"sigma": {("el", "sigma", k)}}
            elements(c, z, "every population fills its own section", f"{q.partition(':')[2]}, {name}, sigma {'of the same shape' if same else 'scalar'}",
                     q, (total,), want)
    q = "glass.galaxies:redshifts_from_nz"
    for zshape in ((4,), (*shape, 4)):
        z = Case(c, "chunks", "nz", elementwise=EW)
        z.run(count=z.const(counts[0]) if shape == () else z.carr(shape, counts), z=z.arr("z", zshape), nz=z.arr("nz", (*shape, 4)))

        def want(ix, src):
            k = index[owner[ix[0]]]
            mine = {("el", "nz", (*k, j)) for j in range(4)}
            allowed = {"nz": mine}
            need = list(mine)
            if len(zshape) > 1:
                allowed["z"] = {("el", "z", (*k, j)) for j in range(4)}
            return need, allowed
        elements(c, z, "every population fills its own section", f"redshifts_from_nz, {name}, redshifts {zshape}", q, (total,), want)


def pixels(deep):
    """Numbers of galaxies per pixel, batch sizes and populations."""
    import random
    rnd = random.Random(7)

    def some(npix, vals):
        return tuple(rnd.choice(vals) for _ in range(npix))
    for npix, batches in ((12, (1, 2, 5, 1000)), (48, (1, 3, 1000)), (3072, (100, 1000, 10**6))):
        for vals in ((0, 0, 1, 2, 5), (1,), (0, 0, 0, 0, 0, 0, 0, 0, 9), (0,)):
            for b in batches:
                yield npix, b, (some(npix, vals),)
    yield 48, 4, (some(48, (0, 1, 3)), (0,) * 48, some(48, (0, 2)))
    yield 12, 4, tuple(some(12, (0, 1, 3)) for _ in range(6)), (2, 3)
    # empty ends, and a last pixel that alone exceeds a batch
    yield 48, 4, ((0,) * 40 + (1, 0, 0, 7, 0, 0, 0, 9),)
    yield 3072, 500, ((0,) * 1000 + (3,) * 1000 + (0,) * 1072,)
    yield 3072, 1001, ((1,) * 1001 + (0,) * 998 + (2,) * 1073,)
    if deep:
        for npix in (192, 768, 3072):
            for b in (7, 64, 999, 1000, 1001, 5000):
                for vals in ((0, 1), (0, 0, 0, 4), (2, 3)):
                    yield npix, b, (some(npix, vals),)


def points(c, npix, batch, ns, dims=None):
    q = "glass.points:positions_from_delta"
    rule = "batches cover every galaxy"
    calls = [0]

    def outcome(it, a, k):
        calls[0] += 1
        return z.carr((npix,), ns[calls[0] - 1]) if calls[0] <= len(ns) else None
    z = Case(c, "chunks", "points", elementwise=EW, draws={"poisson": outcome})
    pops = len(ns)
    if dims is None:
        dims = (pops,) if pops > 1 else ()
    shape = (*dims, npix)
    z.run(ngal=z.arr("ngal"), delta=z.arr("delta", shape), bias=None, vis=None, batch=batch)
    name = f"positions_from_delta, {npix} pixels, {dims or 1} populations, {[sum(n) for n in ns]} galaxies, batch {batch}"
    xs = z.items()
    where = loc(c, q)
    if z.fails:
        c.bad(rule, name, z.fails, where)
        return
    if z.lost or xs is None or calls[0] != pops:
        c.unk(rule, name, z.why(), where)
        return
    got = {p: [] for p in range(pops)}
    last = 0
    for x in xs:
        ys = z.items(x)
        if ys is None or len(ys) != 3:
            c.unk(rule, name, show(x, 3), where)
            return
        ip = None
        for y in ys[:2]:
            call = y
            while call.op == "index" or (call.op == "call" and call.data[0].rpartition(".")[2] in ("asarray", "astype")):
                call = call.args[0]
            kw = dict(zip(call.data[1], call.args)) if call.op == "call" and call.data[0] == "hp.randang" else {}
            a = z.it.as_carr(kw["ipix"]) if "ipix" in kw else None
            if a is None or (ip is not None and ip != a):
                c.unk(rule, name, show(y, 4), where)
                return
            ip = a
        m = z.it.shape(ys[2])
        vals = [e for _, e in z.E.all(ys[2]) or ()] if m is not None else []
        size = (m, [e.data for e in vals]) if vals and all(e.op == "const" for e in vals) else None
        if size is None:
            c.unk(rule, name, show(ys[2], 4), where)
            return
        total = sum(size[1])
        if total != len(ip[1]):
            c.bad(rule, name, f"{len(ip[1])} positions are reported as {total}", where)
            return
        p = 0
        if pops > 1:
            at = [k for k, v in enumerate(size[1]) if v]
            if len(at) != 1 and ip[1] or size[0] != dims:
                c.bad(rule, name, f"the numbers reported are {size[1]}", where)
                return
            p = at[0] if at else last
        if p < last:
            c.bad(rule, name, f"population {p} is continued after population {last}", where)
            return
        last = p
        got[p] += list(ip[1])
    for p, n in enumerate(ns):
        expect = [k for k, v in enumerate(n) for _ in range(v)]
        if got[p] != expect:
            k = next((k for k, (a, b) in enumerate(zip(got[p], expect)) if a != b), min(len(got[p]), len(expect)))
            have = got[p][k] if k < len(got[p]) else "missing"
            c.bad(rule, name, f"galaxy {k} of population {p} is in pixel {have} instead of {expect[k] if k < len(expect) else 'none'}", where)
            return
    c.ok(rule, name, f"{len(xs)} batches", where)


def uniform(c, counts, shape):
    q = "glass.points:uniform_positions"
    rule = "every population is placed once"
    import itertools
    z = Case(c, "chunks", "uniform", elementwise=EW, draws={"poisson": lambda it, a, k: z.carr(shape, counts) if shape else z.const(counts[0])})
    z.run(ngal=z.arr("ngal", shape))
    name = f"uniform_positions, counts {counts} {shape}"
    xs = z.items()
    where = loc(c, q)
    if z.fails:
        c.bad(rule, name, z.fails, where)
        return
    if z.lost or xs is None:
        c.unk(rule, name, z.why(), where)
        return
    if len(xs) != len(counts):
        c.bad(rule, name, f"{len(xs)} sets of positions for {len(counts)} populations", where)
        return
    index = list(itertools.product(*[range(d) for d in shape]))
    for p, x in enumerate(xs):
        ys = z.items(x)
        if ys is None or len(ys) != 3:
            c.unk(rule, name, show(x, 3), where)
            return
        for y in ys[:2]:
            s = z.it.shape(y)
            if s is None or not all(isinstance(d, int) for d in s):
                c.unk(rule, name, show(y, 4), where)
                return
            if s != (counts[p],):
                c.bad(rule, name, f"population {p} gets positions of shape {s} instead of {(counts[p],)}", where)
                return
        want = [counts[p] if k == index[p] else 0 for k in index]
        m = z.it.shape(ys[2])
        vals = None if m is None or m != shape else [e for _, e in z.E.all(ys[2])]
        if vals is None or any(v.op != "const" for v in vals):
            c.unk(rule, name, show(ys[2], 4), where)
            return
        if [v.data for v in vals] != want:
            c.bad(rule, name, f"population {p} is reported as {[v.data for v in vals]}", where)
            return
    c.ok(rule, name, f"{len(xs)} populations", where)
