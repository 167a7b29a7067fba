"""Angles keep their units.

Every function of angles is evaluated symbolically for each array library, and the units of angles are
inferred in the exact normal forms of its results: arguments carry their documented unit, inverse
trigonometric functions and draws of pixel positions give theirs, and pi/180 converts.  Arguments of
trigonometric functions must not be in degrees or converted wrongly, sums and two-argument
arctangents must not mix units, results must have their documented unit, and calls that look up
or sample pixels must be told the unit they are given.
"""

import math
import operator
from fractions import Fraction

from ..closed import loc
from ..grids import Gridded, sequence
from ..ir import Graph
from ..paths import paths
from .c10 import Sampled, algebra, ratio

ASSUMPTIONS = [
    "healpix.ang2pix and randang take and give colatitude and longitude in radians, or longitude and latitude in degrees if lonlat.",
    "Constant factors of angles other than half or full turns and conversions are not judged.",
]
LIBRARIES = ("numpy", "jax.numpy", "array_api_strict")
SIMPLE = {Fraction(1, 4), Fraction(1, 2), Fraction(1), Fraction(2), Fraction(4)}
TURNS = {Fraction(n) for n in (90, 180, 270, 360)}


class Mixed(Exception):
    pass


class Case(Sampled):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.cls = Gridded


def constant(k):
    """(simple factor, power of 180, power of pi) of a number, or None."""
    k = abs(Fraction(k))
    if k == 0:
        return None
    for turns in (0, 1, -1):
        if k * Fraction(180) ** -turns in SIMPLE:
            return k * Fraction(180) ** -turns, turns, 0
    for p in (1, -1):
        for turns in (0, 1, -1):
            q = float(k) * math.pi ** -p * 180.0 ** -turns
            for s in SIMPLE:
                if abs(q / float(s) - 1) < 1e-9:
                    return s, turns, p
    return None


class Units:
    """Units of normal forms: deg, rad, num (a number), wrong (a wrong conversion), or None."""

    def __init__(self, A, params):
        self.A = A
        self.params = params
        self.seen = {}
        self.faults = []
        self.checked = 0
        self.unclear = []

    def leaf(self, node):
        n = node
        item = None
        while n is not None and n.op in ("el", "index") and n.args:
            if n.op == "index" and len(n.args) > 1 and n.args[1].op == "const":
                item = n.args[1].data
            n = n.args[0]
        if n is None:
            return None
        if n.op == "extdraw" and n.args:
            n = n.args[0]
        if n.op == "call" and n.data[0].rpartition(".")[2] in ("randang", "pix2ang"):
            lonlat = dict(zip(n.data[1], n.args)).get("lonlat")
            if lonlat is None:
                return "rad"
            return ("deg" if lonlat.data else "rad") if lonlat.op == "const" else None
        if n.op in ("param", "draw"):
            name = str(n.data[1] if n.op == "param" else n.data)
            if name in self.params:
                return self.params[name]
            if name.startswith("uniform"):
                return "turn"
            if name.startswith("normal"):
                return "num"
        return None

    def atom(self, i):
        """(powers of degrees, radians, pi, uniform numbers) of an atom, or None."""
        A = self.A
        if i == A.PI:
            return 0, 0, 1, 0
        if i == A.I:
            return 0, 0, 0, 0
        name, args, node = A.atoms_[i]
        if i not in self.seen:
            self.seen[i] = None
            self.seen[i] = self.compute(i, name, args, node)
        return self.seen[i]

    def compute(self, i, name, args, node):
        A = self.A
        if name == "leaf":
            u = self.leaf(node)
            return {"deg": (1, 0, 0, 0), "rad": (0, 1, 0, 0), "num": (0, 0, 0, 0), "turn": (0, 0, 0, 1)}.get(u)
        if name in ("sin", "cos", "tan"):
            self.trigonometric(name, args[0])
            return 0, 0, 0, 0
        if name == "exp":
            z = args[0]
            if A.I in z.atoms() and all(dict(m).get(A.I) == 1 for m in z.n.t):
                self.trigonometric("exp(i .)", A.div(z, A.A(A.I)))
            else:
                self.unit(z)
            return 0, 0, 0, 0
        if name in ("asin", "acos", "atan"):
            self.unit(args[0])
            return 0, 1, 0, 0
        if name == "atan2":
            us = [self.dims(a) for a in args]
            kinds = {k for u in us for k in [self.kind(u)] if k in ("deg", "rad")}
            if len(kinds) > 1:
                self.faults.append(f"the arguments of an arctangent mix degrees and radians: {A.describe(i)[:200]}")
            return 0, 1, 0, 0
        if name == "sqrt":
            d = self.dims(args[0])
            if d is not None and len(d) == 1:
                (k, _), = d.items()
                if all(x % 2 == 0 for x in k):
                    return tuple(x // 2 for x in k)
            return None
        if name in ("abs", "max", "min") or name.startswith(("phi:", "mod", "remainder", "where")):
            us = [self.dims(a) for a in (args[1:] if name.startswith(("phi:", "where")) else args) if hasattr(a, "n")]
            kinds = {k for u in us for k in [self.kind(u)]}
            if {"deg", "rad"} <= kinds or "mixed" in kinds:
                self.faults.append(f"degrees and radians are mixed in {A.describe(i)[:200]}")
            for k, v in (("deg", (1, 0, 0, 0)), ("rad", (0, 1, 0, 0)), ("num", (0, 0, 0, 0))):
                if kinds == {k}:
                    return v
            return None
        for a in args if isinstance(args, (list, tuple)) else ():
            if hasattr(a, "n"):
                self.unit(a)
        return None

    def trigonometric(self, name, x):
        u = self.unit(x)
        self.checked += 1
        if u == "deg":
            self.faults.append(f"{name} of an angle in degrees: {self.A.show(x)[:200]}")
        elif u == "wrong":
            self.faults.append(f"{name} of an angle that is converted wrongly: {self.A.show(x)[:200]}")
        elif u is None:
            self.unclear.append(f"{name}({self.A.show(x)[:120]})")

    def dims(self, form):
        """Sets of constants by powers of degrees, radians, pi and uniform numbers; None if not known."""
        A = self.A
        form = A.norm(form)
        out = {}
        known = True
        below = (0, 0, 0, 0)
        scale = form.d.cval() if form.d.is_const() else None
        if scale is None:
            if len(form.d.t) == 1:
                (m, scale), = form.d.t.items()
                below = self.product(m)
            else:
                scale = 1
                ds = [self.product(m) for m in form.d.t]
                if any(d is None or d[:2] != (0, 0) for d in ds):
                    below = None
        for m, k in form.n.t.items():
            d = self.product(m)
            if d is None or below is None:
                known = False
                continue
            d = tuple(a - b for a, b in zip(d, below))
            out.setdefault(d, set()).add(Fraction(k) / Fraction(scale))
        self.known = known
        return out if known or {self.term(d, k) for d, ks in out.items() for k in ks} >= {"deg", "rad"} else None

    def product(self, m):
        total = [0, 0, 0, 0]
        ok = True
        for a, e in m:
            d = self.atom(a)
            if d is None:
                ok = False
                continue
            total = [x + e * y for x, y in zip(total, d)]
        return tuple(total) if ok else None

    def term(self, d, k):
        """Unit of one term."""
        deg, rad, p, turn = d
        c = constant(k)
        if (deg, rad) == (0, 0):
            if c is None:
                return None if turn else "num"
            s, h, q = c
            p += q
            if p == 1 and h == 0:
                return "rad"
            if p == 0 and abs(Fraction(k)) in TURNS:
                return "deg"
            return "num" if not turn else None
        if deg + rad != 1 or min(deg, rad) < 0 or turn:
            return None
        if c is None:
            return None
        s, h, q = c
        p += q
        if deg:
            return {(0, 0): "deg", (1, -1): "rad"}.get((p, h), "wrong")
        return {(0, 0): "rad", (-1, 1): "deg"}.get((p, h), "wrong")

    def kind(self, ds):
        if ds is None:
            return None
        us = {self.term(d, k) for d, ks in ds.items() for k in ks}
        angles = us & {"deg", "rad"}
        if len(angles) > 1:
            return "mixed"
        if "wrong" in us:
            return "wrong"
        if None in us:
            return None
        return us.pop() if len(us) == 1 else None

    def unit(self, form):
        u = self.kind(self.dims(form))
        if u == "mixed":
            self.faults.append(f"degrees and radians are added: {self.A.show(form)[:200]}")
            return None
        return u


DEG, RAD = "deg", "rad"
WORD = {"deg": "degrees", "rad": "radians", "num": "no unit of angle", "wrong": "neither, after a wrong conversion"}


def elements(z, x, many=4):
    s = z.it.shape(x)
    if s is None:
        return [z.el(x)]
    if not all(isinstance(d, int) for d in s):
        return []
    return [v for _, v in z.it.elements.all(x, s)][:many] if s else [z.el(x)]


def leaves(z, x):
    xs = sequence(z, x)
    return [x] if xs is None else [v for y in xs for v in leaves(z, y)]


def follow(c, name, anchor, prog, bind, params, out, library, depth=6, numbers=None, **kw):
    """Obligations that trigonometric functions take radians and the results have the units of out."""
    where = loc(c, anchor)
    name = f"{name}, {library}"
    g = Graph()
    calls = []

    def lookup(it, kw):
        calls.append((it, kw))
        return None, None

    def make():
        z = Case(c, "angles", prog, graph=g, backend=library, records={**{f"{h}.{f}": lookup for h in ("hp", "healpix", "healpy") for f in ("ang2pix", "ang2vec")}, **kw.get("records", {})},
                 **{k: v for k, v in kw.items() if k != "records"})
        z.mk = lambda: algebra({})
        return z
    n = 0
    problems, unclear, why = [], [], None
    wrong = []
    trig = looked = 0
    for P in paths(make, bind, depth=depth, limit=200):
        if P.cut or P.case.fails or numbers is not None and any(t is not numbers for d, t in P.trace if d.op == "call" and d.data[0].endswith("isdtype")):
            continue
        z = P.case
        if z.lost:
            why = why or z.why()
            continue
        n += 1
        U = Units(z.A, params)
        results = leaves(z, z.result)
        for k, x in enumerate(results):
            want = out[k % len(out)] if out else None
            for v in elements(z, x):
                form = z.A.of(v)
                u = U.unit(form)
                if want is None:
                    continue
                if u in ("deg", "rad", "wrong") and u != want:
                    wrong.append((True, f"result {k % len(out) + 1} is in {WORD[u]} instead of {WORD[want]}: {z.A.show(form)[:200]}"))
                elif u != want:
                    wrong.append((False, f"unit of result {k % len(out) + 1}: {z.A.show(form)[:200]}"))
        problems += U.faults
        unclear += U.unclear
        trig += U.checked
        for it, kw2 in calls:
            if it is z.it:
                check_lookup(z, U, kw2, wrong, unclear)
                looked += 1
    rule = "angles in the unit that is needed"
    if problems:
        return c.bad(rule, name, problems[0], where)
    sure = [t for definite, t in wrong if definite]
    if sure:
        return c.bad("angles in the documented unit", name, sure[0], where)
    rest = [t for _, t in wrong] + unclear
    if not n or not trig and not looked and not out:
        rest = rest or ["no angle is met"]
    if not n or rest:
        return c.unk(rule, name, rest[0] if rest else why or "no complete path", where)
    c.ok(rule, name, f"{trig} arguments of trigonometric functions, {looked} lookups and {len(out)} results on {n} paths", where)


def check_lookup(z, U, kw, wrong, unclear):
    """A call that finds pixels."""
    def arg(name, k):
        return kw.get(name, kw.get(str(k), kw.get(k)))
    lonlat = arg("lonlat", 4)
    if lonlat is None:
        want = "rad"
    elif lonlat.op == "const":
        want = "deg" if lonlat.data else "rad"
    else:
        unclear.append("unit told to a pixel lookup")
        return
    for name, k in (("theta", 1), ("phi", 2)):
        x = arg(name, k)
        if x is None:
            unclear.append("arguments of a pixel lookup")
            continue
        for v in elements(z, x, 2) or [x]:
            form = z.A.of(v)
            u = U.unit(form)
            if u in ("deg", "rad", "wrong") and u != want:
                wrong.append((True, f"a pixel lookup in {WORD[want]} is given an angle in {WORD[u]}: {z.A.show(form)[:200]}"))
            elif u != want:
                wrong.append((False, f"unit of an angle given to a pixel lookup: {z.A.show(form)[:200]}"))


def check(c):
    for part in (displacements, sampling, lookups, conversions, orientations, footprints):
        c.section(part, c)


class Strips:
    """Maps made of strips: values for every combination of strips, and the coordinates the map is in."""

    def __init__(self, given):
        self.given = given      # (colatitudes) -> name of a strip
        self.origin = {}        # strip -> coordinates in which it was looked up
        self.faults = []
        self.lookups = []

    def settle(self, names, frame):
        for n in names:
            if self.origin.get(n) is None:
                self.origin[n] = frame

    def unify(self, ms):
        frames = {m[2] for m in ms if m[2] is not None}
        names = frozenset().union(*(m[1] for m in ms))
        if len(frames) > 1:
            self.faults.append("maps in " + " and ".join(sorted(FRAME[f] for f in frames)) + " coordinates are combined")
        frame = min(frames) if frames else None
        if frame is not None:
            self.settle(names, frame)
        return names, frame

    def strip(self, n):
        """The strip selected by an expression of pixel numbers."""
        if n.op != "call" or n.data[0].rpartition(".")[2] != "query_strip":
            return None
        name = self.given.get(tuple(a.id for a in n.args[1:3]))
        if name is not None and n.args[0].op == "const" and len(n.args) == 3:
            self.origin.setdefault(name, None)
            return name
        return None

    def of(self, n):
        """(values by set of strips a pixel is in, strips, coordinates) or None."""
        if n.op == "const" and isinstance(n.data, (int, float)):
            return (lambda s, v=n.data: v), frozenset(), None
        if n.op == "call":
            name = n.data[0].rpartition(".")[2]
            kw = dict(zip(n.data[1], n.args))
            if name in ("ones", "zeros"):
                v = 1 if name == "ones" else 0
                return (lambda s: v), frozenset(), None
            if name in ("zeros_like", "ones_like"):
                v = 1 if name == "ones_like" else 0
                return (lambda s: v), frozenset(), None
            if name == "where" and len(n.args) == 3:
                t, a, b = (self.of(x) for x in n.args)
                if None in (t, a, b):
                    return None
                names, frame = self.unify([t, a, b])
                return (lambda s: a[0](s) if t[0](s) else b[0](s)), names, frame
            if name in ("asarray", "array", "copy", "astype", "float", "int"):
                x = kw.get("obj") or kw.get("x") or kw.get("0") or (n.args[0] if n.args else None)
                return self.of(x) if x is not None else None
        if n.op == "update" and n.data == "set" and len(n.args) == 3:
            m, name, v = self.of(n.args[0]), self.strip(n.args[1]), self.of(n.args[2])
            if m is None or name is None or v is None or v[1]:
                return None
            names, frame = self.unify([m, (None, frozenset([name]), None)])
            return (lambda s: v[0](s) if name in s else m[0](s)), names, frame
        if n.op == "cmp" and n.data in COMPARE and len(n.args) == 2:
            a, b = (self.of(x) for x in n.args)
            if a is None or b is None:
                return None
            names, frame = self.unify([a, b])
            f = COMPARE[n.data]
            return (lambda s: f(a[0](s), b[0](s))), names, frame
        if n.op == "bin" and n.data in ("+", "-", "*", "|", "&", "^"):
            a, b = (self.of(x) for x in n.args)
            if a is None or b is None:
                return None
            names, frame = self.unify([a, b])
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "|": lambda x, y: x | y, "&": lambda x, y: x & y, "^": lambda x, y: x ^ y}[n.data]
            return (lambda s: f(a[0](s), b[0](s))), names, frame
        if n.op == "mcall" and n.data[0] == "rotate_map_pixel" and len(n.args) == 2 and n.args[0].op == "call" and n.args[0].data[0].endswith("Rotator"):
            m = self.of(n.args[1])
            kw = dict(zip(n.args[0].data[1], n.args[0].args))
            coord = kw.get("coord")
            if coord is not None and coord.op == "tuple" and all(a.op == "const" for a in coord.args):
                coord = "".join(str(a.data) for a in coord.args)
            elif coord is not None and coord.op == "const":
                coord = coord.data
            if m is None or set(kw) != {"coord"} or not isinstance(coord, str) or len(coord) != 2 or not set(coord) <= set(FRAME):
                return None
            f, names, frame = m
            if frame is None:
                self.settle(names, coord[0])
            elif frame != coord[0]:
                self.faults.append(f"a map in {FRAME[frame]} coordinates is rotated as if it was in {FRAME[coord[0]]} coordinates")
            return f, names, coord[1]
        return None


COMPARE = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
FRAME = {"G": "galactic", "E": "ecliptic", "C": "equatorial"}


def footprints(c):
    """Masked strips: in the coordinates they are given in, and in radians."""
    q = "glass.observations:vmap_galactic_ecliptic"
    where = loc(c, q)
    own, full, unit = "strips are blocked in their own coordinates", "visibility is zero in the strips and one elsewhere", "colatitudes of strips are in radians"
    z = Case(c, "angles", "stripes", prims=())
    gs, es = [z.arr(f"g{k}") for k in range(2)], [z.arr(f"e{k}") for k in range(2)]
    z.run(nside=z.const(4), galactic=z.tuple(gs), ecliptic=z.tuple(es))
    S = Strips({tuple(x.id for x in gs): "galactic", tuple(x.id for x in es): "ecliptic"})
    m = None if z.lost or z.result is None else S.of(z.result)
    if m is None:
        return c.unk(own, "visibility map", z.why() or "map not understood", where)
    wrong = [f"{v} for pixels in {'the ' + ' and '.join(sorted(s)) + ' strip' if s else 'no strip'}"
             for s in (set(), {"galactic"}, {"ecliptic"}, {"galactic", "ecliptic"}) for v in [m[0](s)] if v != (0 if s else 1)]
    c.decide(not wrong, full, "visibility map", "; ".join(wrong) or "all four kinds of pixels", where)
    for name, f in (("galactic", "G"), ("ecliptic", "E")):
        got = S.origin.get(name)
        if S.faults:
            c.bad(own, f"{name} strip", S.faults[0], where)
        elif got not in (f, None):
            c.bad(own, f"{name} strip blocked in {FRAME[got]} coordinates", f"the strip of colatitudes given for the {name} plane is blocked in {FRAME[got]} coordinates", where)
        else:
            c.ok(own, f"{name} strip", FRAME.get(got, "no rotation"), where)
    z = Case(c, "angles", "footprint", prims=())
    z.run(nside=z.const(4))
    found = []
    stack, seen = [z.result] if z.result is not None and not z.lost else [], set()
    while stack:
        n = stack.pop()
        if n.id not in seen:
            seen.add(n.id)
            stack += n.args
            if n.op == "call" and n.data[0].rpartition(".")[2] == "query_strip":
                found.append(n.args[1:3])
    if not found:
        c.unk(unit, "default strips", z.why() or "no lookup of a strip", where)
    for pair in sorted(found, key=lambda p: [repr(a.data) for a in p]):
        if not all(a.op == "const" and isinstance(a.data, (int, float)) for a in pair):
            c.unk(unit, "default strip", str(pair), where)
            continue
        word = " to ".join(f"{a.data:g}" for a in pair)
        good = all(0 <= a.data <= math.pi + 1e-9 for a in pair)
        c.decide(good, unit, f"default strip of {word}", f"colatitudes {word} are looked up as radians", where)


def displacements(c):
    P = {"lon": DEG, "lat": DEG, "to_lon": DEG, "to_lat": DEG, "a1": RAD, "a2": RAD, "alpha": RAD}
    for lib in LIBRARIES:
        for s in ((), (2,)):
            for q, what, prog in (("glass.points:displace", "displaced positions", "displaced"), ("glass.lensing:deflect", "deflected positions", "deflected")):
                follow(c, f"{what}, shape {s}, complex numbers", q, prog, lambda z: {k: z.arr(k, s) for k in ("lon", "lat", "a1", "a2")}, P, (DEG, DEG), lib, numbers=True)
                follow(c, f"{what}, shape {s}, pairs", q, prog + "_pair", lambda z: {k: z.arr(k, s) for k in ("lon", "lat")} | {"alpha": z.arr("alpha", (2, *s))}, P, (DEG, DEG), lib, numbers=False)
            follow(c, f"displacements, shape {s}", "glass.points:displacement", "displacement", lambda z: {k: z.arr(k, s) for k in ("lon", "lat", "to_lon", "to_lat")}, P, (RAD,), lib)


def sampling(c):
    for lib in LIBRARIES:
        for s in ((), (2,)):
            follow(c, f"uniform positions, densities of shape {s}", "glass.points:uniform_positions", "uniform", lambda z: {"ngal": z.arr("ngal", s)}, {}, (DEG, DEG), lib,
                   counts=lambda it, s: it.carrf(s, [2, 1][:max(1, sum(s))]) if s else it.g.const(2))
        follow(c, "positions in pixels", "glass.points:positions_from_delta", "sampled", lambda z: {"ngal": z.arr("ngal"), "delta": z.arr("delta", (12,)), "vis": z.const(None)}, {}, (DEG, DEG), lib,
               counts=lambda it, s: it.carrf(s, [1] + [0] * 11))
        for flag in (True, False, None):
            follow(c, f"positions within pixels, {'as longitudes and latitudes' if flag else 'as angles' if flag is False else 'default'}", "glass.healpix:randang",
                   "within_pixels" + ("_default" if flag is None else ""), lambda z: {"ipix": z.arr("ipix", (2,))} | ({} if flag is None else {"lonlat": flag}), {},
                   (DEG if flag else RAD,), lib, prims=())


def lookups(c):
    P = {"lon": DEG, "lat": DEG}
    for lib in LIBRARIES:
        for red in (True, False):
            follow(c, f"galaxy shears, {'' if red else 'not '}reduced", "glass.galaxies:galaxy_shear", "sheared",
                   lambda z: {k: z.arr(k, (3,)) for k in ("lon", "lat", "eps")} | {k: z.arr(k, (12,)) for k in ("kappa", "g1", "g2")} | {"reduced": red}, P, (), lib)
        for flag in (True, False, None):
            u = DEG if flag else RAD
            follow(c, f"pixels of positions, {'longitudes and latitudes' if flag else 'angles' if flag is False else 'default'}", "glass.healpix:ang2pix",
                   "pixels" + ("_default" if flag is None else ""), lambda z: {"x": z.arr("x"), "y": z.arr("y")} | ({} if flag is None else {"lonlat": flag}), {"x": u, "y": u}, (), lib, prims=())


def conversions(c):
    for lib in LIBRARIES:
        follow(c, "degrees to radians", "glass._array_api_utils:xp_additions.radians", "to_radians", lambda z: {"x": z.arr("x")}, {"x": DEG}, (RAD,), lib, prims=())
        follow(c, "radians to degrees", "glass._array_api_utils:xp_additions.degrees", "to_degrees", lambda z: {"x": z.arr("x")}, {"x": RAD}, (DEG,), lib, prims=())


def orientations(c):
    names = ("mu", "sigma", "gamma", "sigma_gamma")
    for lib in LIBRARIES:
        follow(c, "Ryden (2004) ellipticities", "glass.shapes:ellipticity_ryden04", "ryden", lambda z: {k: z.arr(k, (1,)) for k in names}, {}, (), lib,
               opaque={"glass.shapes:triaxial_axis_ratio"}, records={"triaxial_axis_ratio": ratio})
        for given in (None, "varg", "vargamma"):
            follow(c, f"resampled shapes, {given or 'no variance'} given", "glass.shapes:resample_shapes", "resampled",
                   lambda z: {k: z.arr(k, (2,)) for k in "xy"} | {k: z.arr(k) if k == given else z.const(None) for k in ("varg", "vargamma")},
                   {"x": "num", "y": "num", "varg": "num", "vargamma": "num"}, (), lib)
