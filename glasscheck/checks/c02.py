"""Every random number comes from the caller's generator.

Provenance analysis: each entry point that takes a generator is expanded with all
helpers inlined, once with a generator given and, for every kind of array library,
once without.  Each draw found (sampling methods, libraries that are handed a
generator, global sampling functions) is an obligation: with a generator given, its
source must be that generator object itself (through wrappers, branches and loops);
without one, all draws of the call must come from a single generator created once,
outside any loop, with the fixed default seed.  Generator wrappers must draw from the
generator they wrap, with the method asked for.
"""

from ..interp import Config, analyse
from ..ir import deps, show
from ..util import entries, short

OPAQUE = {"glass.jax:Generator"}


def sources(n, it, out=None, seen=None):
    """Leaves of a generator value."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if n.id in seen:
        return out
    seen.add(n.id)
    if n.op == "phi":
        sources(n.args[1], it, out, seen)
        sources(n.args[2], it, out, seen)
    elif n.op == "mu":
        sources(n.args[0], it, out, seen)
        if n.back is not None:
            sources(n.back, it, out, seen)
    elif n.op == "global":
        out.append(n)
    else:
        out.append(n)
    return out


def describe(n):
    if n.op == "param":
        return f"argument '{n.data[1]}'"
    if n.op == "new":
        return f"a new {n.data[0]} created at {n.loc[0]}:{n.loc[1]} ({n.loc[2]})" if n.loc else "a new generator"
    if n.op == "ext":
        return f"the process-wide state behind {n.data}"
    return show(n, 3)


def check(c):
    p = c.project
    seen = set()

    def once(status, rule, cons, detail, loc):
        k = (status, rule, cons, str(loc))
        if k not in seen:
            seen.add(k)
            getattr(c, status)(rule, cons, detail, loc)

    ndraw = 0
    for q in entries(p):
        fn = p.find_func(q)[2].args
        names = [a.arg for a in fn.posonlyargs + fn.args + fn.kwonlyargs]
        if "rng" in names:
            # a generator is given
            it = analyse(p, q, Config(notnull={"rng"}, opaque_classes=OPAQUE))
            c.count(it)
            for e in it.events:
                if e.kind != "draw":
                    continue
                ndraw += 1
                cons = f"{short(q)}:{e.loc[2]}:{str(e.info['method']).split('.')[-1]}"
                rest = [s for s in sources(e.info["src"], it) if not (s.op == "param" and s.data[1] == "rng")]
                if rest:
                    once("bad", "draw from the given generator", cons,
                         "draws from " + "; ".join(sorted({describe(s) for s in rest})), e.loc)
                else:
                    once("ok", "draw from the given generator", cons, "draws from the argument rng", e.loc)
            # none is given
            for b in ("numpy", "jax.numpy", "array_api_strict"):
                it = analyse(p, q, Config(backend=b, opaque_classes=OPAQUE), {"rng": None})
                c.count(it)
                used = {}
                for e in it.events:
                    if e.kind != "draw":
                        continue
                    ndraw += 1
                    for s in sources(e.info["src"], it):
                        used.setdefault(s.id, (s, e))
                if not used:
                    continue
                cons = f"{short(q)}:{b}"
                bad = []
                for s, e in used.values():
                    if s.op != "new":
                        bad.append((f"draws from {describe(s)}", e.loc))
                        continue
                    ev = next((x for x in it.events if x.kind == "new" and x.node is s), None)
                    if ev is not None and ev.loops:
                        bad.append((f"{describe(s)} inside a loop", e.loc))
                    call = s.args[0]
                    seed = dict(zip(call.data[1], call.args)).get("seed")
                    if seed is None and call.args:
                        seed = call.args[0]
                    if seed is not None and seed.op == "global":
                        seed = seed.args[0]
                    if seed is None or seed.op != "const" or seed.data is None:
                        if seed is None or seed.op == "const" or seed.op == "call":
                            bad.append((f"{describe(s)} without the fixed default seed", e.loc))
                    elif seed.data != default_seed(p):
                        bad.append((f"{describe(s)} with seed {seed.data!r} instead of the default seed", e.loc))
                if len(used) > 1:
                    s2 = [describe(s) for s, _ in used.values()]
                    bad.append(("draws come from different generators: " + "; ".join(s2),
                                list(used.values())[-1][1].loc))
                if bad:
                    once("bad", "one generator with the default seed", cons, bad[0][0], bad[0][1])
                else:
                    once("ok", "one generator with the default seed", cons, describe(list(used.values())[0][0]), None)
        else:
            it = analyse(p, q, Config(opaque_classes=OPAQUE))
            c.count(it)
            for e in it.events:
                if e.kind != "draw":
                    continue
                ndraw += 1
                srcs = sources(e.info["src"], it)
                cons = f"{short(q)}:{e.loc[2]}:{str(e.info['method']).split('.')[-1]}"
                rest = [s for s in srcs if not (s.op == "attr0" and s.data in ("rng", "_rng"))]
                if rest:
                    once("bad", "no draw without a generator", cons,
                         "draws from " + "; ".join(sorted({describe(s) for s in rest})), e.loc)
                    continue
                once("ok", "draw from the wrapped generator", cons, "draws from the wrapped generator", e.loc)
    # the wrapper keeps the generator it is given, and forwards each method to the same method
    for q in [x for x in entries(p) if x.startswith("glass.rng:Generator.")]:
        m = q.rpartition(".")[2]
        if m == "__init__":
            it = analyse(p, q, Config(notnull={"rng"}, opaque_classes=OPAQUE))
            v = it.state.heap.get(it.selfref.data, {}).get("rng")
            if v is not None:
                c.decide(True if v.op == "param" and v.data[1] == "rng" else False if v.op in ("new", "ref") else None,
                         "wrapper keeps the generator", short(q), f"self.rng = {show(v, 2)}")
            continue
        it = analyse(p, q, Config(opaque_classes=OPAQUE))
        ds = [e for e in it.events if e.kind == "draw"]
        if len(ds) == 1:
            d = ds[0].info["method"]
            same = d == m or {d, m} in ({"normal", "standard_normal"}, {"random", "uniform"})
            c.decide(True if d == m else None if same else False if d in SAMPLERS else None,
                     "wrapper forwards to the same method", short(q), f"calls {d}", ds[0].loc)
    c.note(f"{ndraw} draws examined")


SAMPLERS = {"random", "normal", "poisson", "standard_normal", "uniform", "multinomial", "integers", "exponential"}


def default_seed(p):
    m = p.modules.get("glass.rng")
    b = m.bind.get("SEED") if m else None
    try:
        return b[1].value
    except Exception:
        return 42
