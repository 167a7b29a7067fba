"""Files written are complete, closed and read back alike.

The functions that write and read files are interpreted over models of the files: archives with named
arrays, FITS files with extensions and rows, both open or closed.  Arrays are sequences of pieces of
unknown (or given) sizes.  Every history of batches up to a length, every extension setting, every kind
and place of a failure is followed; at its end the rows of the file, the columns they are in, the state of
the file and the fate of the error are compared with what was written.
"""

import itertools

from ..closed import loc
from ..files import Arr, Fits, Handle, Npz, Size, Table, World, modules, opener, same
from ..mini import BUILTINS, Mini, Raised, Undecided

ASSUMPTIONS = [
    "numpy.savez and load store and return arrays under their keyword names; a file read by load is open until it is closed.",
    "fitsio.FITS truncates an existing file with clobber; write_table adds an extension, HDU.write puts rows from firstrow on; columns are found by name.",
    "Histories have at most four batches; failures happen between batches or in the first three writes.",
]


class Boom(Exception):
    pass


def check(c):
    for part in (spectra, catalogues, failures, existing, several):
        c.section(part, c)


def interpreter(c, world):
    it = Mini(c.project, modules(world))
    it.opener = opener(world)
    return it


def public(c, it, name):
    BUILTINS["open"] = it.opener
    try:
        return it.public(name)
    except KeyError:
        raise Undecided(f"no public {name}") from None


def sizes(kind, n):
    return [Size(0, {f"n{k}": 1}) for k in range(n)] if kind is None else list(kind)


# ------------------------------------------------------------------ spectra
def spectra(c):
    where = loc(c, "glass.user:load_cls")
    for kind, n in [(None, k) for k in range(1, 7)] + [((3, 2, 4), 3), ((1, 1, 1, 1), 4), ((4, 0, 2), 3), ((5,), 1), ((2, 3, 1, 4, 1, 2), 6), ((3, 3), 2)]:
        name = f"{n} spectra of {'any length' if kind is None else 'lengths ' + ', '.join(map(str, kind))}"
        world = World()
        it = interpreter(c, world)
        cls = [Arr([(f"cl{k}", 0, m)]) for k, m in enumerate(sizes(kind, n))]
        given = list(cls)
        try:
            save, load = public(c, it, "save_cls"), public(c, it, "load_cls")
            try:
                it.call(save, ["cls.npz", cls], {})
            except Raised as r:
                c.bad("spectra can be written", name, f"{type(r.value).__name__}: {r.value}", where)
                continue
            left = world.still_open()
            if left:
                c.bad("files are closed", name + ", written", f"{left[0].name} is still open", where)
            else:
                c.ok("files are closed", name + ", written", f"{len(world.opened)} files opened and closed", where)
            if cls != given:
                c.bad("spectra are read as written", name, "the list of spectra is changed", where)
                continue
            try:
                out = it.call(load, ["cls.npz"], {})
                out = list(it.iterate(out))
            except Raised as r:
                c.bad("spectra are read as written", name, f"reading fails: {type(r.value).__name__}: {r.value}", where)
                continue
            left = [f for f in world.still_open() if isinstance(f, (Npz, Handle))]
            if left:
                c.bad("files are closed", name + ", read", f"{left[0].name} is still open", where)
            else:
                c.ok("files are closed", name + ", read", "closed", where)
            if not all(isinstance(x, Arr) for x in out):
                raise Undecided("result is not a list of arrays")
            alike = len(out) == n and all(equal(a, b) for a, b in zip(out, given))
            c.decide(alike, "spectra are read as written", name, f"read: {out}; written: {given}", where)
        except Undecided as u:
            c.unk("spectra are read as written", name, str(u), where)
        count(c, it)


def count(c, it):
    for f in it.functions:
        f = f"glass.user:{f}" if ":" not in f else f
        c.analysed[f] = c.analysed.get(f, 0) + 1


def equal(a, b):
    x, y = a.key(), b.key()
    return len(x) == len(y) and all(p[0] == q[0] and same(p[1], q[1]) and same(p[2], q[2]) for p, q in zip(x, y))


# --------------------------------------------------------------- catalogues
class Batch:
    """Columns of some rows, written as a structured array or by name."""

    def __init__(self, k, names, struct, n):
        self.names, self.struct = names, struct
        self.columns = {x: Arr([(f"{x}{k}", 0, n)]) for x in names}

    def write(self, it, out):
        f = it.attr(out, "write")
        if self.struct:
            it.call(f, [Table(self.columns)], {})
        else:
            it.call(f, [], dict(self.columns))

    def __repr__(self):
        return ("structured " if self.struct else "") + "/".join(self.names)


def batches(kinds, names=("RA", "DEC"), lengths=None):
    out = []
    for k, x in enumerate(kinds):
        order = names[::-1] if x == "r" else names
        out.append(Batch(k, order, x == "s", Size(0, {f"n{k}": 1}) if lengths is None else lengths[k]))
    return out


KINDS = {"c": "columns", "r": "columns in another order", "s": "structured array"}


def follow(c, *args, **options):
    its = []
    history(c, its, *args, **options)
    for it in its:
        count(c, it)


def history(c, its, rule, name, kinds, ext, fail=None, error=None, fail_at=None, stale=False, names=("RA", "DEC"), lengths=None):
    """One history: batches, a failure after so many of them or in a write."""
    where = loc(c, "glass.user:write_catalog")
    files = {}
    world = World(files)
    it = interpreter(c, world)
    its.append(it)
    todo = batches(kinds, names, lengths)
    done = []
    try:
        manager = public(c, it, "write_catalog")
        if stale:
            old = Fits(world, "out.fits", "rw", clobber=True)
            old.write(None)
            old.write_table([Arr([("old", 0, 5)]) for _ in names], names=list(names), extname=ext)
            old.close()
        world.fail_at = fail_at
        world.writes = 0

        def body(out):
            for k, b in enumerate(todo):
                if fail == k:
                    raise Raised(error)
                b.write(it, out)
                done.append(b)
            if fail == len(todo):
                raise Raised(error)
        result = None
        try:
            it.with_(it.call(manager, ["out.fits"], {"ext": ext} if ext is not None else {}), body)
        except Raised as r:
            result = r.value
        for f in world.faults:
            return c.bad(rule, name, f, where)
        if fail_at is not None:
            if world.writes < fail_at:
                return None
            if result is None:
                return c.bad(rule, name, "an error while writing is hidden", where)
        elif fail is not None:
            if result is not error:
                return c.bad(rule, name, "the error in the block is " + ("hidden" if result is None else f"replaced by {type(result).__name__}: {result}"), where)
        elif result is not None:
            return c.bad(rule, name, f"writing fails: {type(result).__name__}: {result}", where)
        left = world.still_open()
        if left:
            return c.bad(rule, name, "the file is still open after the block", where)
        if fail_at is not None:
            return c.ok(rule, name, "closed, and the error is passed on", where)
        hdus = world.files.get("out.fits")
        if hdus is None:
            return c.bad(rule, name, f"written to {list(world.files)}", where)
        tables = [h for h in hdus if h.table]
        if not done:
            return c.decide(not any(h.columns for h in tables), rule, name, "no rows, closed" if not tables else f"{len(tables)} tables", where)
        if len(tables) != 1:
            return c.bad(rule, name, f"the file has {len(tables)} tables", where)
        t = tables[0]
        if ext is not None and (t.name or "").upper() != ext.upper():
            return c.bad(rule, name, f"the extension is called {t.name}", where)
        if set(t.columns) != set(names):
            return c.bad(rule, name, f"the columns are {list(t.columns)} instead of {list(names)}", where)
        for x in names:
            want = Arr([p for b in done for p in b.columns[x].pieces])
            have = Arr([p for a in t.columns[x] for p in a.pieces])
            if not equal(have, want):
                return c.bad(rule, name, f"column {x} has {have} instead of {want}", where)
        return c.ok(rule, name, f"{len(done)} batches, closed", where)
    except Undecided as u:
        return c.unk(rule, name, str(u), where)


def word(ext):
    return "no extension name" if ext is None else f"extension {ext}"


def catalogues(c):
    for ext in (None, "CATALOG", "cat"):
        for n in range(5):
            for kinds in itertools.product("crs", repeat=n):
                if n == 4 and len(set(kinds)) == 3:
                    continue
                follow(c, "batches are appended", f"{word(ext)}, {', '.join(KINDS[k] for k in kinds) or 'nothing'}", kinds, ext)
        for lengths in ((3, 2, 4), (1, 1), (0, 2), (2, 0, 3)):
            follow(c, "batches are appended", f"{word(ext)}, batches of {', '.join(map(str, lengths))} rows", "c" * len(lengths), ext, lengths=lengths)
        for names in (("data", "self", "names"), ("ext", "fits"), ("Z",), ("B", "A", "D", "C")):
            follow(c, "batches are appended", f"{word(ext)}, columns {', '.join(names)}", "ccr", ext, names=names)


def failures(c):
    errors = [("an exception", Boom()), ("an interrupt", KeyboardInterrupt()), ("an exit", SystemExit()), ("a stopped iteration", ValueError("x"))]
    for ext in (None, "CATALOG"):
        for n in range(4):
            for kinds in {"c" * n, "s" * n, ("cs" * n)[:n]}:
                for k in range(n + 1):
                    for what, e in errors if kinds == "c" * n else errors[:1]:
                        follow(c, "closed with the rows written when the block fails",
                               f"{word(ext)}, {what} after {k} of {n} batches of {'columns' if set(kinds) <= {'c'} else 'structured arrays' if set(kinds) == {'s'} else 'either kind'}", kinds, ext, fail=k, error=e)
        for k in range(1, 5):
            follow(c, "closed when writing fails", f"{word(ext)}, write {k} fails", "ccc", ext, fail_at=k)


def existing(c):
    for ext in (None, "CATALOG"):
        for kinds in ("", "c", "cc", "sc"):
            follow(c, "an existing file is replaced", f"{word(ext)}, {len(kinds)} batches", kinds, ext, stale=True)


def several(c):
    """Two catalogues at a time keep their own rows."""
    rule, where = "catalogues written at the same time are separate", loc(c, "glass.user:write_catalog")
    for e1, e2 in itertools.product((None, "CATALOG", "OTHER"), repeat=2):
        for order in ("aabb", "abab", "abba", "baab"):
            name = f"{word(e1)} and {word(e2)}, batches {order}"
            world = World()
            it = interpreter(c, world)
            try:
                manager = public(c, it, "write_catalog")
                bs = batches("cccc")
                mine = {"a": [], "b": []}

                def inner(a, b):
                    for x, batch in zip(order, bs):
                        batch.write(it, a if x == "a" else b)
                        mine[x].append(batch)
                try:
                    it.with_(it.call(manager, ["a.fits"], {"ext": e1}), lambda a: it.with_(it.call(manager, ["b.fits"], {"ext": e2}), lambda b: inner(a, b)))
                except Raised as r:
                    c.bad(rule, name, f"writing fails: {type(r.value).__name__}: {r.value}", where)
                    continue
                if world.faults or world.still_open():
                    c.bad(rule, name, (world.faults or ["a file is still open"])[0], where)
                    continue
                bad = None
                for x in "ab":
                    ts = [h for h in world.files.get(f"{x}.fits", ()) if h.table]
                    if len(ts) != 1:
                        bad = f"{x}.fits has {len(ts)} tables"
                        break
                    for n in ("RA", "DEC"):
                        have = Arr([p for a in ts[0].columns.get(n, ()) for p in a.pieces])
                        want = Arr([p for b in mine[x] for p in b.columns[n].pieces])
                        if not equal(have, want):
                            bad = f"column {n} of {x}.fits has {have} instead of {want}"
                (c.bad if bad else c.ok)(rule, name, bad or "own rows", where)
            except Undecided as u:
                c.unk(rule, name, str(u), where)
            count(c, it)
