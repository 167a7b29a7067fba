"""The JAX-backed generator never uses a key twice.

Linear-use analysis of random keys.  Every method of the generator class is expanded
with its helpers and key property inlined; each key is traced to the split that made
it and its position in that split.  Obligations: the generator's own key is only ever
split, never handed to a sampling function; the split happens while the generator's
lock is held, in the same critical section in which the key is replaced by an element
of that very split; no element of a split is consumed by more than one of: sampling
functions, further splits, the generator's new key, child generators, the value
returned; keys consumed in a loop are made in that loop.  The argument is per critical
section and does not depend on the schedule of the threads.
"""

from ..interp import Config, analyse
from ..ir import deps, show
from ..util import require, short

ANCHOR = "glass.jax:Generator"
NOT_CONSUMERS = {"key", "PRNGKey", "wrap_key_data", "key_data", "key_impl", "clone", "fold_in_data"}
ASSUMPTIONS = ["jax.random.split returns independent keys; jax.random functions take the key first or as 'key'."]
TRANSPARENT_M = {"reshape", "ravel", "flatten"}
TRANSPARENT_C = {"asarray", "reshape", "array", "squeeze", "ravel"}


def origin(n, key_attr):
    """('self', node) | ('idx', split, k) | ('from', split, s, loop, end) | ('param', n) | None"""
    for _ in range(20):
        if n.op == "mcall" and isinstance(n.data, tuple) and n.data[0] in TRANSPARENT_M:
            n = n.args[0]
        elif n.op == "call" and n.data[0].split(".")[-1] in TRANSPARENT_C and n.data[0].split(".")[0] in ("jnp", "xp", "np"):
            n = n.args[0]
        elif n.op == "call" and n.data[0] in ("builtins.list", "builtins.tuple", "builtins.iter"):
            n = n.args[0]
        elif n.op == "global":
            n = n.args[0]
        else:
            break
    if n.op == "attr0" and n.data == key_attr:
        return ("self", n)
    if n.op == "param":
        return ("param", n)
    if is_split(n):
        return ("from", n, 0, None, None)
    if n.op == "elem":
        o = origin(n.args[0], key_attr)
        off = n.data[1] if isinstance(n.data, tuple) else 0
        if o and o[0] == "from":
            return ("from", o[1], o[2] + off if isinstance(off, int) else 0, n.data[0], o[4])
        return o if o and o[0] == "param" else None
    if n.op == "index":
        o = origin(n.args[0], key_attr)
        i = n.args[1]
        if i.op == "tuple" and i.args:
            i = i.args[0]
        if o and o[0] == "from" and o[3] is None:
            if i.op == "const" and isinstance(i.data, int):
                return ("idx", o[1], i.data + (o[2] if i.data >= 0 else 0))
            if i.op == "slice":
                lo, hi, st = i.args
                if all(x.op == "const" and (x.data is None or type(x.data) is int) for x in (lo, hi, st)) and st.data in (None, 1):
                    s = lo.data or 0
                    h = hi.data
                    if s >= 0 and (h is None or h < 0):
                        return ("from", o[1], o[2] + s, None, (h or 0) + (o[4] or 0) or None)
            if i.op in ("relem", "counter"):
                st = i.args[0]
                if st.op == "const" and isinstance(st.data, int):
                    return ("from", o[1], o[2] + st.data, i.data, o[4])
        return None
    return None


def is_split(n):
    return n.op == "call" and n.data[0] == "jax.random.split"


def fresh_lock(n):
    """A lock made by this very call excludes nobody."""
    return n is not None and n.op in ("new", "call") and isinstance(n.data, tuple) and str(n.data[0]).startswith("threading.")


def splits_in(n):
    return [x for x in deps([n]).values() if is_split(x)]


def alternatives(n, out=None):
    out = [] if out is None else out
    if n.op == "phi":
        alternatives(n.args[1], out)
        alternatives(n.args[2], out)
    else:
        out.append(n)
    return out


def exclusive(p1, p2):
    d = {c.id: pol for c, pol in p1}
    return any(c.id in d and d[c.id] != pol for c, pol in p2)


def returned_keys(n, key_attr, seen=None):
    """Key material handed out by the returned value (not through a sampling function)."""
    seen = set() if seen is None else seen
    if n is None or n.id in seen:
        return []
    seen.add(n.id)
    o = origin(n, key_attr)
    if o is not None:
        return [o] if o[0] in ("idx", "from", "self") else []
    if n.op in ("tuple", "list", "listof", "phi"):
        return [k for a in (n.args[1:] if n.op == "phi" else n.args) for k in returned_keys(a, key_attr, seen)]
    return []


def overlap(a, b):
    if a[1] is not b[1]:
        return False
    if a[0] == "idx" and b[0] == "idx":
        return a[2] == b[2]
    if b[0] == "idx":
        a, b = b, a
    if a[0] == "idx":
        return a[2] >= b[2] if a[2] >= 0 else b[4] is None or a[2] < b[4]
    return True


def check(c):
    p = c.project
    require(p, ANCHOR + ".__init__")
    it = analyse(p, ANCHOR + ".__init__")
    c.count(it)
    st = it.state.heap.get(it.selfref.data, {})
    key_attr = next((k for k, v in st.items() if v is not None and any(
        x.op == "call" and x.data[0] in ("jax.random.key", "jax.random.PRNGKey") for x in deps([v]).values())), None)
    lock_attr = next((k for k, v in st.items() if v is not None and v.op in ("new", "call") and any(
        x.op == "call" and x.data[0] in ("threading.Lock", "threading.RLock") for x in deps([v]).values())), None)
    if key_attr is None:
        c.unk("generator has a key", short(ANCHOR), "the attribute that holds the key was not identified")
        return
    c.decide(True if lock_attr else None,
             "every generator owns a lock", short(ANCHOR) + ".__init__",
             f"self.{lock_attr} is a new lock" if lock_attr else "no lock attribute was identified")
    from ..util import entries
    qs = [q for q in entries(p) if q.startswith(ANCHOR + ".") and not q.endswith(".__init__")]
    # key properties
    for m in p.modules["glass.jax"].bind.get("Generator")[1].body:
        q = f"{ANCHOR}.{getattr(m, 'name', '')}"
        if hasattr(m, "name") and hasattr(m, "decorator_list") and q not in qs and m.name != "__init__":
            qs.append(q)
    for q in qs:
        c.section(method, c, p, q, key_attr, lock_attr)


def method(c, p, q, key_attr, lock_attr):
    cons = short(q)
    it = analyse(p, q)
    c.count(it)
    if it.broken:
        c.unk("keys are used once", cons, it.broken)
        return
    manual = any(e.kind == "mcall" and e.info["name"] in ("acquire", "release", "__enter__") for e in it.events)
    odd_with = any(e.kind == "with_enter" and not (e.node.op == "attr0" and e.node.data == lock_attr)
                   and not fresh_lock(e.node) for e in it.events)

    def held(e):
        if any(x.op == "attr0" and x.data == lock_attr for x in e.locks):
            return True
        if manual or (odd_with and e.locks):
            return None
        return False

    uses = []       # (origin, event, what)
    splits = []
    for e in it.events:
        if e.kind == "extcall" and str(e.info["fn"]).startswith("jax.random."):
            f = e.info["fn"].split(".")[-1]
            if f in NOT_CONSUMERS:
                continue
            a = e.info["args"][0] if e.info["args"] else (e.info.get("kwargs") or {}).get("key")
            if a is None:
                continue
            for alt in alternatives(a):
                o = origin(alt, key_attr)
                if o is None:
                    c.unk("keys are used once", f"{cons}:{f}", f"origin of {show(a, 3)} not traced", e.loc)
                    continue
                uses.append((o, e, f))
        elif e.kind == "new" and e.info.get("cls") == "x":
            pass
        elif e.kind in ("attr_write", "attr_init") and e.info["attr"] == key_attr:
            for alt in alternatives(e.info["value"]):
                o = origin(alt, key_attr)
                if o is not None:
                    uses.append((o, e, "the generator's new key" if e.kind == "attr_write" else "a child generator's key"))
    last = it.events[-1] if it.events else None
    if it.result is not None:
        for o in returned_keys(it.result, key_attr):
            uses.append((o, None, "the caller"))
    own = [(o, e, f) for o, e, f in uses if o[0] == "self"]
    if not own and not any(e.kind == "attr_read" and e.info["attr"] == key_attr for e in it.events):
        # does not touch its own key
        if any(e.kind == "extcall" and str(e.info["fn"]).startswith("jax.random.") for e in it.events):
            c.ok("draws use a fresh key", cons, "no use of the generator's own key")
        else:
            c.ok("keys are used once", cons, "no key is consumed")
    # own key: only ever split
    for o, e, f in own:
        loc = e.loc if e else None
        if f == "split":
            h = held(e)
            c.decide(h, "own key is split under the lock", cons, "split " + ("inside" if h else "outside") + " the lock", loc)
            rep = [(o2, e2) for o2, e2, f2 in uses if e2 is not None and e2.kind == "attr_write"]
            fin = it.state.heap.get(it.selfref.data, {}).get(key_attr)
            if not rep or fin is None:
                c.bad("own key is replaced", cons, "the key is split but never replaced, so that the next call splits it again", loc)
            else:
                for alt in alternatives(fin):
                    of = origin(alt, key_attr)
                    if of is None:
                        c.unk("own key is replaced", cons, f"new key {show(alt, 3)} not traced", loc)
                    elif of[0] == "idx" and origin_root(of[1], key_attr):
                        c.ok("own key is replaced", cons, f"by element {of[2]} of the split", loc)
                    elif of[0] == "self":
                        c.bad("own key is replaced", cons, "on some path the key is kept although it was split", loc)
                    elif of[0] == "from":
                        c.unk("own key is replaced", cons, "by a batch of keys", loc)
                    else:
                        c.unk("own key is replaced", cons, "by a key from elsewhere", loc)
                for o2, e2 in rep:
                    h2 = held(e2)
                    same = h and h2 and not any(x.kind == "with_exit" and e.seq < x.seq < e2.seq and
                                                x.node.op == "attr0" and x.node.data == lock_attr for x in it.events)
                    c.decide(True if same else None if None in (h, h2) else False, "split and replacement are one critical section",
                             cons, "the key is replaced " + ("in the same" if same else "outside that") + " critical section", e2.loc)
        elif e is not None and e.kind in ("attr_write", "attr_init"):
            if e.kind == "attr_init":
                c.bad("own key is only split", cons, "the generator's own key is given to another generator", loc)
        else:
            c.bad("own key is only split", cons,
                  f"the generator's own key is used directly by {f}" if e else "the generator's own key is handed to the caller", loc)
    # every read of the own key under the lock
    for e in it.events:
        if e.kind == "attr_read" and e.info["attr"] == key_attr:
            h = held(e)
            c.decide(h, "own key is read under the lock", cons, "", e.loc)
    # elements used at most once
    n = 0
    for i, (o, e, f) in enumerate(uses):
        if o[0] not in ("idx", "from"):
            continue
        n += 1
        hit = None
        for o2, e2, f2 in uses[i + 1:]:
            if o2[0] in ("idx", "from") and overlap(o, o2):
                if e is not None and e2 is not None and (e is e2 or exclusive(e.pc, e2.pc)):
                    continue
                if o[0] == "idx" and o2[0] == "from" or o[0] == "from" and o2[0] == "idx" or o[0] == o2[0] == "idx" or \
                        o[3] is None or o2[3] is None or o[3] == o2[3]:
                    hit = (f2, e2)
                    break
        loc = e.loc if e else None
        if hit:
            c.bad("each derived key is used once", f"{cons}:{f}", f"the same key is used by {f} and by {hit[0]}", loc)
            continue
        # invariant in a loop
        if e is not None and e.kind in ("extcall", "attr_init") and e.loops:
            lp = e.loops[-1]
            made = loops_of(it, o[1])
            if o[0] == "from" and o[3] in e.loops and e.loops[-1] == o[3]:
                c.ok("each derived key is used once", f"{cons}:{f}", "one element per iteration", loc)
            elif set(e.loops) - set(made):
                c.bad("each derived key is used once", f"{cons}:{f}", "the same key is used in every iteration of a loop", loc)
            else:
                c.ok("each derived key is used once", f"{cons}:{f}", "made in the same loop", loc)
            continue
        c.ok("each derived key is used once", f"{cons}:{f}", describe(o), loc)
    del last


def origin_root(split, key_attr):
    return any(x.op == "attr0" and x.data == key_attr for x in deps([split]).values())


def loops_of(it, split):
    for e in it.events:
        if e.kind == "extcall" and e.info["fn"] == "jax.random.split" and e.loc == split.loc:
            return e.loops
    return ()


def describe(o):
    if o[0] == "idx":
        return f"element {o[2]} of {show(o[1], 2)}"
    return f"elements from {o[2]} of {show(o[1], 2)}"
