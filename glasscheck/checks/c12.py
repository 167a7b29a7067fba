"""Invalid input is rejected.

1. Input whose structure is invalid (numbers of spectra, fields, shells and bins that disagree, wrong
   dimensions, contradictory options, unknown methods, unsupported pairs of transformations): the call
   is evaluated with this structure and arbitrary contents; every path must end in an error, for
   generators before the first item.  The same call with valid structure must not end in an error.
2. Input whose values are invalid (negative variances, bounds in the wrong order, parameters outside
   their domain): on every path that returns, the comparisons decided must include that the input is
   valid; a violation is a path whose comparisons hold for an invalid input.
"""

import itertools

from ..closed import COSMOLOGY, loc
from ..grids import Draws
from ..ir import Graph
from ..paths import paths
from .c10 import Sampled, algebra, elements, sampler, spread, true

ASSUMPTIONS = [
    "The invalid structures are those enumerated; contents of arrays are arbitrary finite numbers.",
    "Errors raised by libraries for wrong arguments are not part of the property.",
]


def check(c):
    for part in (spectra, matrices, windows, options, transformations, generators, values, boundaries):
        c.section(part, c)


def call(c, prog, bind, depth, mk=None, **kw):
    g = Graph()

    def make():
        z = Sampled(c, "guards", prog, graph=g, **kw)
        z.mk = lambda: algebra({"": (-1, 1)}) if mk is None else mk
        return z
    return paths(make, bind, depth=depth, limit=120)


def contrary(z, x, t):
    """The condition has no variables and the other truth value."""
    if not isinstance(t, bool):
        return False
    seen, todo = set(), [x]
    while todo:
        n = todo.pop()
        if n.id not in seen:
            seen.add(n.id)
            if n.op in ("param", "unknown", "opaque", "ref", "elem", "mcall") or len(seen) > 2000:
                return False
            todo += n.args
    return true(z.A, x, 0, z.ok) is (not t)


def holds(z, x, t, s):
    """The decision is taken at a generic point."""
    if isinstance(t, bool):
        return true(z.A, x, s, z.ok) is t
    if x.op == "call" and x.data[0] in ("choice:max", "choice:min") and isinstance(t, int) and t < len(x.args):
        fs = [z.A.of(a) for a in x.args]
        if all(z.A.understood(f, z.ok) for f in fs):
            try:
                vs = [z.A.value(f, s) for f in fs]
            except (ZeroDivisionError, OverflowError, ValueError):
                return False
            return all(abs(v.imag) < 1e-9 for v in vs) and vs[t].real == (max if x.data[0].endswith("max") else min)(v.real for v in vs)
    return False


def rejected(c, name, anchor, prog, bind, valid=None, depth=5, **kw):
    """Obligations that a call with invalid structure ends in an error, and one with valid structure does not."""
    where = loc(c, anchor)
    n, unknown, bad = 0, None, None
    returns = 0
    for P in call(c, prog, bind, depth, **kw):
        z = P.case
        if any(contrary(z, x, t) for x, t in P.trace):
            continue
        returns = None if P.cut or z.fails or z.lost or returns is None else returns + 1
        if z.fails and not P.cut:
            n += 1
        elif z.lost and not P.cut:
            unknown = unknown or z.why()
        elif bad is None:
            trace = spread(z, P.trace)
            if not trace and not P.cut or trace and len(trace) > 2 * P.cut and any(all(holds(z, x, t, s) for x, t in trace) for s in range(60)):
                bad = f"no error after {len(trace)} decisions" if P.cut else "a result is returned" + (f" when {trace[0][0]} is {trace[0][1]}" if trace else "")
            else:
                unknown = unknown or ("more decisions than followed" if P.cut else "whether the path that returns can be taken")
    rule = "invalid input is rejected"
    if returns and not bad:
        bad = f"a result is returned on each of {returns} paths"
    if bad:
        c.bad(rule, name, bad, where)
    elif unknown or not n:
        c.unk(rule, name, unknown or "no path", where)
    else:
        c.ok(rule, name, f"all {n} paths end in an error", where)
    if valid is not None:
        rule = "valid input is accepted"
        n, bad, unknown = 0, None, None
        for P in call(c, prog, valid, depth + 4, **kw):
            z = P.case
            if any(contrary(z, x, t) for x, t in P.trace):
                continue
            if not z.fails:
                n += not P.cut
            elif P.cut or P.trace:
                unknown = f"{z.fails} when {P.trace[0][0]} is {P.trace[0][1]}" if P.trace else "more decisions than followed"
            else:
                bad = z.fails
        if bad:
            c.bad(rule, name, bad, where)
        elif n:
            c.ok(rule, name, f"{n} paths return", where)
        else:
            c.unk(rule, name, unknown or "no path", where)


def arrays(z, n, size=2, name="cl"):
    return z.tuple([z.arr(f"{name}{k}", (size,)) for k in range(n)])


def spectra(c):
    q = "glass.fields:"
    for n in (2, 4, 5, 7, 8, 9, 11, 14):
        near = min((1, 3, 6, 10, 15), key=lambda t: abs(t - n))
        rejected(c, f"number of spectra {n}", q + "nfields_from_nspectra", "nfields", lambda z: {"n": n}, lambda z: {"n": near})
    for n in (2, 4, 5):
        for prog, f in (("first_gaussian", "generate_gaussian"), ("first_lognormal", "generate_lognormal"), ("lognormal_gls",) * 2, ("to_healpix", "glass_to_healpix_spectra"),
                        ("from_healpix", "healpix_to_glass_spectra"), ("covariance", "cov_from_spectra"), ("discretized", "discretized_cls")):
            key = "gls" if prog.startswith("first") else "spectra"
            rejected(c, f"{f}, {n} spectra", q + f, prog, lambda z: {key: arrays(z, n)})
        rejected(c, f"regularized_spectra, {n} spectra", q + "regularized_spectra", "regularized", lambda z: {"spectra": arrays(z, n), "method": "nearest"})
        rejected(c, f"effective_cls, {n} spectra", q + "effective_cls", "effective", lambda z: {"spectra": arrays(z, n), "w1": z.arr("w1", (2,)), "w2": z.const(None)})
    for n, m in ((1, 0), (1, 3), (2, 1), (2, 2), (2, 4), (2, 6), (3, 3), (3, 5), (0, 1)):
        for prog, f, key in (("first_field", "generate", "gls"), ("computed", "compute_gaussian_spectra", "spectra"), ("solved", "solve_gaussian_spectra", "spectra")):
            rejected(c, f"{f}, {n} fields, {m} spectra", q + f, prog, lambda z: {"n": n, key: arrays(z, m)}, (lambda z: {"n": n, key: arrays(z, n * (n + 1) // 2)}) if n and f[:3] == "com" else None, depth=4)
    for s1, s2 in (((3,), None), ((1,), None), ((), None), ((2,), (3,)), ((2,), (1, 2)), ((2,), ()), ((3, 2), (2,)), ((2, 2), (3, 2))):
        rejected(c, f"effective_cls, 2 fields, weights of shape {s1}" + (f" and {s2}" if s2 is not None else ""), q + "effective_cls", "effective",
                 lambda z: {"spectra": arrays(z, 3), "w1": z.arr("w1", s1), "w2": z.const(None) if s2 is None else z.arr("w2", s2)},
                 lambda z: {"spectra": arrays(z, 3), "w1": z.arr("w1", (2, *s1[1:])), "w2": z.const(None) if s2 is None else z.arr("w2", (2, *s2[1:]))})
    for m in ("other", "Nearest", ""):
        rejected(c, f"regularized_spectra, method {m!r}", q + "regularized_spectra", "regularized", lambda z: {"spectra": arrays(z, 1, 1), "method": m},
                 lambda z: {"spectra": arrays(z, 1, 1), "method": "clip"}, opaque={"glass.algorithm:nearcorr"})
    for n in ((1,), (2,)):
        rejected(c, f"fields without spectra, {n}", q + "generate", "first_field", lambda z: {"n": n[0], "gls": arrays(z, n[0] * (n[0] + 1) // 2, 0)}, lambda z: {"n": n[0], "gls": arrays(z, n[0] * (n[0] + 1) // 2, 2)})
    for shapes in (((0,),), ((2, 0),), ((2, 2), (3, 3)), ((2, 2), (1, 2)), ((1, 2), (2, 2)), ((2, 2), (2,)), ((2,), (2, 2)), ((2,), (0,))):
        rejected(c, f"iternorm, rows of shapes {shapes}", q + "iternorm", "rows", lambda z: {"cov": z.tuple([z.arr(f"c{k}", s) for k, s in enumerate(shapes)])})


def matrices(c):
    q = "glass.algorithm:"
    ok = lambda z: {"a": z.arr("a", (3, 2)), "b": z.arr("b", (3,))}
    for a, b in (((3,), (3,)), ((1, 3, 2), (3,)), ((3, 2), ()), ((3, 2), (3, 1)), ((3, 2), (2,)), ((2, 3), (3,)), ((1, 2), (2,)), ((2, 2), (1,))):
        rejected(c, f"nnls, shapes {a} and {b}", q + "nnls", "nnls", lambda z: {"a": z.arr("a", a), "b": z.arr("b", b)}, ok)
    for s in ((2, 3), (3, 2), (1, 2), (2, 1), (2, 2, 3)):
        rejected(c, f"nearcorr, shape {s}", q + "nearcorr", "nearcorr", lambda z: {"a": z.arr("a", s)}, lambda z: {"a": z.arr("a", (2, 2))})


def windows(c):
    q = "glass.shells:"
    for f, least in (("tophat", 2), ("linear", 3), ("cubic", 3)):
        for s in ((), (least, 1), (1, least), (2, 2, 2), *((k,) for k in range(least))):
            rejected(c, f"{f}_windows, edges of shape {s}", f"{q}{f}_windows", f, lambda z: {"z": z.arr("z", s)}, lambda z: {"z": z.arr("z", (least,))})
    for s in ((), (2, 2), (1, 3)):
        rejected(c, f"restrict, redshifts of shape {s}", q + "restrict", "restricted", lambda z: {"z": z.arr("z", s), "f": z.arr("f", s), "za": z.arr("za", (2,)), "wa": z.arr("wa", (2,))})
    for m in ("other", "NNLS", "", "window"):
        rejected(c, f"partition, method {m!r}", q + "partition", "parts",
                 lambda z: {"z": z.arr("z", (2,)), "f": z.arr("f", (2,)), "za": z.arr("za", (2,)), "wa": z.arr("wa", (2,)), "method": m},
                 lambda z: {"z": z.arr("z", (2,)), "f": z.arr("f", (2,)), "za": z.arr("za", (2,)), "wa": z.arr("wa", (2,)), "method": "lstsq"})
    for n, s in ((2, ()), (2, (1,)), (2, (3,)), (3, (2, 3)), (1, (2,)), (0, (1,))):
        rejected(c, f"multi_plane_weights, {n} shells, weights of shape {s}", "glass.lensing:multi_plane_weights", "plane_weights",
                 lambda z: {"weights": z.arr("weights", s), "z": z.arr("z", (2,)), "w": z.arr("w", (2,)), "n": n},
                 (lambda z: {"weights": z.arr("weights", (n, *s[1:])), "z": z.arr("z", (2,)), "w": z.arr("w", (2,)), "n": n}) if n else None, **COSMOLOGY)


def options(c):
    both = ((None, None), (1, 0.5))
    for a, b in both:
        word = "neither" if a is None else "both"
        rejected(c, f"redshift_grid, {word} of step and number", "glass.shells:redshift_grid", "zgrid", lambda z: {"dz": z.const(b), "num": z.const(a)}, lambda z: {"dz": z.const(0.5), "num": z.const(None)})
        rejected(c, f"distance_grid, {word} of step and number", "glass.shells:distance_grid", "dgrid", lambda z: {"dx": z.const(b), "num": z.const(a)},
                 lambda z: {"dx": z.const(None), "num": z.const(2)}, **COSMOLOGY)
        rejected(c, f"fixed_zbins, {word} of step and number", "glass.observations:fixed_zbins", "zbins", lambda z: {"dz": z.const(b), "nbins": z.const(a)},
                 lambda z: {"dz": z.const(None), "nbins": z.const(2)})
    for n, m in itertools.product((0, 1, 2, 3), repeat=2):
        if (n, m) != (2, 2):
            rejected(c, f"visibility, {n} galactic and {m} ecliptic numbers", "glass.observations:vmap_galactic_ecliptic", "stripes",
                     lambda z: {"galactic": z.tuple([z.arr(f"g{k}") for k in range(n)]), "ecliptic": z.tuple([z.arr(f"e{k}") for k in range(m)])},
                     lambda z: {"galactic": z.tuple([z.arr(f"g{k}") for k in range(2)]), "ecliptic": z.tuple([z.arr(f"e{k}") for k in range(2)])})
    for m in ("linear", None, 1.5):
        rejected(c, f"positions_from_delta, bias model {m!r}", "glass.points:positions_from_delta", "first_positions",
                 lambda z: {"ngal": z.arr("ngal"), "delta": z.arr("delta", (12,)), "model": z.const(m)}, counts=lambda it, s: it.carrf(s, [0] * 12))
    rejected(c, "resample_shapes, both variances", "glass.shapes:resample_shapes", "resampled", lambda z: {"eps": z.arr("eps", (2,)), "varg": z.arr("varg"), "vargamma": z.arr("vargamma")},
             lambda z: {"eps": z.arr("eps", (2,)), "varg": z.const(None), "vargamma": z.const(None)})
    for n, low, up in (((2,), (3,), (3,)), ((3,), (2,), (2,)), ((2,), (1,), (1,)), ((2, 2), (2,), (2,)), ((), (2,), (2,)), ((2,), (1, 2), (1, 2))):
        rejected(c, f"gaussian_phz, redshifts of shape {n}, bounds of shapes {low} and {up}", "glass.galaxies:gaussian_phz", "phz",
                 lambda z: {"z": z.arr("z", n), "sigma": z.arr("sigma"), "lower": z.arr("lower", low), "upper": z.arr("upper", up)},
                 lambda z: {"z": z.arr("z", n), "sigma": z.arr("sigma"), "lower": z.arr("lower", n), "upper": z.arr("upper", n)})


def transformations(c):
    kinds = ("normal", "lognormal", "squared")
    for f in ("corr", "icorr", "dcorr"):
        for k1, k2 in itertools.product(kinds, repeat=2):
            if "squared" in (k1, k2) and k1 != k2:
                rejected(c, f"{f} of {k1} and {k2}", f"glass.grf._core:{f}", f, lambda z: {"k1": k1, "k2": k2, "a": z.arr("a"), "b": z.arr("b"), "x": z.arr("x", (2,))},
                         lambda z: {"k1": k1, "k2": k1, "a": z.arr("a"), "b": z.arr("b"), "x": z.arr("x", (2,))})
    for pad in (-1, -2):
        rejected(c, f"padding by {pad}", "glass.grf._solver:solve", "solve", lambda z: {"cl": z.arr("cl", (2,)), "pad": pad}, depth=3)


def generators(c):
    q = "glass.jax:Generator."
    for size, a, b in (((2,), (3,), ()), ((3,), (), (2,)), ((2, 2), (2,), ()), ((2,), (2, 2), ()), ((), (2,), ()), ((1,), (2,), (1,))):
        rejected(c, f"normal, size {size}, parameters of shapes {a} and {b}", q + "normal", "jax_normal", lambda z: {"loc": z.arr("loc", a), "scale": z.arr("scale", b), "size": z.tuple([z.const(d) for d in size])})
        rejected(c, f"uniform, size {size}, parameters of shapes {a} and {b}", q + "uniform", "jax_uniform", lambda z: {"low": z.arr("low", a), "high": z.arr("high", b), "size": z.tuple([z.const(d) for d in size])})
    for size, a in (((2,), (3,)), ((2, 2), (2,)), ((), (2,))):
        rejected(c, f"poisson, size {size}, mean of shape {a}", q + "poisson", "jax_poisson", lambda z: {"lam": z.arr("lam", a), "size": z.tuple([z.const(d) for d in size])})


def values(c):
    rule = "returned results have valid input"

    def at_least(z, label, x):
        return label, [("at least zero", z.A.negate(z.A.of(x)), [z.A.negate(z.A.of(x))])]

    def less(z, label, x, y, word):
        d = z.A.sub(z.A.of(x), z.A.of(y))
        return label, [(word, d, [d])]
    signed = {k: (-1, 1) for k in ("a", "cl", "sigma", "lower", "upper")}
    for n in ((), (2,), (2, 1)):
        if len(n) < 2:
            sampler(c, rule, f"bounds of photometric redshifts of shape {n}", "glass.galaxies:gaussian_phz", "phz",
                    lambda z: {"z": z.arr("z", n), "sigma": z.arr("sigma"), "lower": z.arr("lower", n), "upper": z.arr("upper", n)},
                    lambda z: [less(z, f"lower bound {ix}", x, z.el(z.args["upper"], *ix), "at most the upper bound") for ix, x in elements(z, z.args["lower"])],
                    domains=signed, depth=2 + 3 * max(1, sum(n)), module="guards")
            count = n or (1,)
            sampler(c, rule, f"intrinsic normal ellipticities, spreads of shape {n}", "glass.shapes:ellipticity_intnorm", "norm_shapes",
                    lambda z: {"count": z.carr(n, [1] * max(1, sum(n))), "sigma": z.arr("sigma", n)},
                    lambda z: [b for ix, x in elements(z, z.args["sigma"]) for b in
                               (at_least(z, f"spread {ix}", x), less(z, f"spread {ix}", x, z.g.const(0.5**0.5), "at most the square root of a half"))],
                    domains={"sigma": (-1, 1)}, depth=6, module="guards")
    for key in ("varg", "vargamma"):
        def mean(z):
            A = z.A
            m = A.C(0)
            for k in range(2):
                for p in ("x", "y"):
                    m = A.add(m, A.mul(A.of(z.el(z.args[p], k)), A.of(z.el(z.args[p], k))))
            d = A.sub(A.of(z.args[key]), A.div(m, A.C(2)))
            return [(key, [("at most the variance of the shapes", d, [d])])]
        sampler(c, rule, f"resampled shapes, {key}", "glass.shapes:resample_shapes", "resampled_parts",
                lambda z: {"x": z.arr("x", (2,)), "y": z.arr("y", (2,)), **{k: z.arr(k) if k == key else z.const(None) for k in ("varg", "vargamma")}}, mean, domains={key: (0, 1), 'x': (-1, 1), 'y': (-1, 1)}, depth=4, module="guards")
    for s in ((1, 1), (2, 2), (2, 1, 1)):
        sampler(c, rule, f"nearest covariance, shape {s}", "glass.algorithm:cov_nearest", "cov_nearest", lambda z: {"a": z.arr("a", s)},
                lambda z: [at_least(z, f"variance {ix}", x) for ix, x in elements(z, z.args["a"]) if ix[-1] == ix[-2]], domains=signed, depth=5,
                opaque={"glass.algorithm:nearcorr"}, module="guards")
    for nf, nc in ((1, 0), (2, 1), (3, 1)):
        m = nf * (nf + 1) // 2
        auto = [j * (j + 1) // 2 for j in range(nf)]
        sampler(c, rule, f"spectra of {nf} fields, {nc} correlations", "glass.fields:cls2cov", "columns",
                lambda z: {"cls": arrays(z, m), "nl": 2, "nf": nf, "nc": nc},
                lambda z: [at_least(z, f"spectrum {k} at {ix}", x) for k in auto for ix, x in elements(z, z.items(z.args["cls"])[k])], domains=signed, depth=2 + 2 * nf, module="guards")
    for n in (1, 2):
        def variances(z):
            xs = [[z.A.of(z.el(r, k)) for k in range(2)] for r in z.items(z.args["cov"])]
            A = z.A
            s = [xs[0][0]]
            if n > 1:
                s.append(A.sub(xs[1][0], A.div(A.mul(xs[1][1], xs[1][1]), xs[0][0])))
            return [(f"conditional variance {k}", [("at least zero", A.negate(x), [A.negate(x)])]) for k, x in enumerate(s)]
        sampler(c, rule, f"covariance of {n} fields", "glass.fields:iternorm", "rows", lambda z: {"cov": arrays(z, n, name="a")}, variances,
                domains=signed, depth=6, positive=True, module="guards")


def boundaries(c):
    """Values on and next to the limit of what is valid."""
    def f(z, xs, s=None):
        return z.carr(s or (len(xs),), xs)
    half = 0.5**0.5
    for low, up in (((0.5,), (0.5,)), ((0.5,), (0.25,)), ((0.0, 0.5), (1.0, 0.5)), ((0.5, 0.0), (0.25, 1.0))):
        n = len(low)
        rejected(c, f"gaussian_phz, bounds {low} and {up}", "glass.galaxies:gaussian_phz", "phz",
                 lambda z: {"z": z.arr("z", (n,)), "sigma": z.arr("sigma"), "lower": f(z, low), "upper": f(z, up)},
                 lambda z: {"z": z.arr("z", (n,)), "sigma": z.arr("sigma"), "lower": f(z, [0.0] * n), "upper": f(z, [0.25] * n)})
    for sigma in ((-0.25,), (half,), (1.0,), (0.5, half), (0.25, -0.25)):
        n = len(sigma)
        rejected(c, f"ellipticity_intnorm, spreads {tuple(round(x, 3) for x in sigma)}", "glass.shapes:ellipticity_intnorm", "norm_shapes",
                 lambda z: {"count": z.carr((n,), [1] * n), "sigma": f(z, sigma)}, lambda z: {"count": z.carr((n,), [1] * n), "sigma": f(z, [0.0] * (n - 1) + [0.5])})
    for bad in ((-1.0, 1.0), (1.0, -1.0)):
        rejected(c, f"cov_nearest, variances {bad}", "glass.algorithm:cov_nearest", "cov_nearest", lambda z: {"a": f(z, (bad[0], 0.5, 0.5, bad[1]), (2, 2))},
                 lambda z: {"a": f(z, (1.0, 0.5, 0.5, 2.0), (2, 2))}, opaque={"glass.algorithm:nearcorr"})
        rejected(c, f"cls2cov, spectrum {bad}", "glass.fields:cls2cov", "columns", lambda z: {"cls": z.tuple([f(z, bad)]), "nl": 2, "nf": 1, "nc": 0},
                 lambda z: {"cls": z.tuple([f(z, (1.0, 0.0))]), "nl": 2, "nf": 1, "nc": 0})
        rejected(c, f"cls2cov, second spectrum {bad}", "glass.fields:cls2cov", "columns",
                 lambda z: {"cls": z.tuple([f(z, (1.0, 1.0)), f(z, bad), f(z, (1.0, 1.0))]), "nl": 2, "nf": 2, "nc": 1},
                 lambda z: {"cls": z.tuple([f(z, (1.0, 1.0)), f(z, (1.0, 0.0)), f(z, (-1.0, 1.0))]), "nl": 2, "nf": 2, "nc": 1})
    for nl, bad, second in ((3, (1.0, -1.0), False), (2, (-1.0,), False), (3, (-1.0,), True), (3, (1.0, -1.0), True)):
        rejected(c, f"cls2cov, {nl} multipoles, {'second' if second else 'only'} spectrum {bad}", "glass.fields:cls2cov", "columns",
                 lambda z: {"cls": z.tuple(([f(z, (1.0,) * nl)] if second else []) + [f(z, bad)] + ([f(z, ())] if second else [])), "nl": nl, "nf": 1 + second, "nc": 0 + second},
                 lambda z: {"cls": z.tuple(([f(z, (1.0,) * nl)] if second else []) + [f(z, [abs(x) for x in bad])] + ([f(z, (-1.0,))] if second else [])), "nl": nl, "nf": 1 + second, "nc": 0 + second})
    for x in (1.0625, 2.0, -2.0):
        rejected(c, f"iternorm, correlation {x}", "glass.fields:iternorm", "rows", lambda z: {"cov": z.tuple([f(z, (1.0, 0.0)), f(z, (1.0, x))])},
                 lambda z: {"cov": z.tuple([f(z, (1.0, 0.0)), f(z, (1.0, 0.5))])})
    good, bad = (1.0, 0.5), (1.0, 2.0)
    for rows, nm in (((bad, good), "first"), ((good, bad), "second"), ((bad, bad), "each")):
        rejected(c, f"iternorm, {nm} of two covariances indefinite", "glass.fields:iternorm", "rows",
                 lambda z: {"cov": z.tuple([f(z, (1.0, 0.0, 1.0, 0.0), (2, 2)), f(z, rows[0] + rows[1], (2, 2))])},
                 lambda z: {"cov": z.tuple([f(z, (1.0, 0.0, 1.0, 0.0), (2, 2)), f(z, good + good, (2, 2))])})
    for var in ((-1.0, 1.0), (1.0, -1.0)):
        rejected(c, f"iternorm, variances {var}", "glass.fields:iternorm", "rows", lambda z: {"cov": z.tuple([f(z, var, (2, 1))])},
                 lambda z: {"cov": z.tuple([f(z, (1.0, 1.0), (2, 1))])})
    for zs in ((0.5, 0.5), (0.5, 0.25), (0.25, 0.5, 0.5), (0.5, 1.0, 0.75), (0.25, 0.5, 0.125), (0.0,), (-1.0,)):
        rejected(c, f"planes at redshifts {zs}", "glass.lensing:MultiPlaneConvergence.add_plane", "planes",
                 lambda z: {"zs": z.tuple([z.const(x) for x in zs]), "delta": z.arr("delta", (2,))},
                 lambda z: {"zs": z.tuple([z.const(0.25 * (k + 1)) for k in range(len(zs))]), "delta": z.arr("delta", (2,))}, **COSMOLOGY)
