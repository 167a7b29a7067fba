"""Models of arrays by their pieces, npz files and FITS files."""

from __future__ import annotations

import os
import pathlib

from .mini import Builtin, Iterator, Model, Namespace, Opaque, Raised, Undecided, standard


class Size:
    """A number: a constant plus unknown sizes, each not negative."""
    KIND = int

    def __init__(self, const=0, parts=None):
        self.const = const
        self.parts = {k: v for k, v in (parts or {}).items() if v}

    def __add__(self, o):
        o = size(o)
        if o is None:
            return NotImplemented
        return plainsize(Size(self.const + o.const, {k: self.parts.get(k, 0) + o.parts.get(k, 0) for k in {*self.parts, *o.parts}}))

    __radd__ = __add__

    def __neg__(self):
        return Size(-self.const, {k: -v for k, v in self.parts.items()})

    def __sub__(self, o):
        o = size(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            return plainsize(Size(self.const * o, {k: v * o for k, v in self.parts.items()}))
        raise Undecided("product of sizes")

    __rmul__ = __mul__

    def order(self, o):
        """-1, 0, 1 or None: sign of the difference."""
        o = size(o)
        if o is None:
            raise Undecided("comparison of sizes")
        d = size(self - o)
        if not d.parts:
            return (d.const > 0) - (d.const < 0)
        if all(v > 0 for v in d.parts.values()) and d.const > 0:
            return 1
        if all(v < 0 for v in d.parts.values()) and d.const < 0:
            return -1
        return None

    def __eq__(self, o):
        if size(o) is None:
            return False
        s = self.order(o)
        if s is None:
            raise Undecided("equality of sizes")
        return s == 0

    def _cmp(self, o, ok, strict, sign):
        d = size(self - o)
        if not d.parts:
            return ok(d.const)
        up = all(v * sign > 0 for v in d.parts.values())
        if up and (d.const * sign > 0 or not strict and d.const == 0):
            return True
        down = all(v * sign < 0 for v in d.parts.values())
        if down and (d.const * sign < 0 or strict and d.const == 0):
            return False
        raise Undecided("order of sizes")

    def __lt__(self, o):
        return self._cmp(o, lambda c: c < 0, True, -1)

    def __le__(self, o):
        return self._cmp(o, lambda c: c <= 0, False, -1)

    def __gt__(self, o):
        return self._cmp(o, lambda c: c > 0, True, 1)

    def __ge__(self, o):
        return self._cmp(o, lambda c: c >= 0, False, 1)

    def __bool__(self):
        raise Undecided("truth of a size")

    def __hash__(self):
        return hash((self.const, frozenset(self.parts.items())))

    def __repr__(self):
        out = [f"{'' if v == 1 else v}{k}" for k, v in sorted(self.parts.items())]
        return " + ".join(out + ([str(self.const)] if self.const or not out else []))


def size(x):
    return x if isinstance(x, Size) else Size(int(x)) if isinstance(x, int) else None


def plainsize(s):
    return s.const if isinstance(s, Size) and not s.parts else s


def same(a, b):
    """Equality of sizes, or None."""
    s = size(a).order(b) if size(b) is not None and size(a) is not None else None
    if s is None:
        d = size(size(a) - b)
        return None if d.parts else d.const == 0
    return s == 0


class Dtype(Model):
    API = ("names", "kind", "fields")
    fields = None

    def __init__(self, names=None):
        self.names = None if names is None else tuple(names)
        self.kind = "f" if names is None else "V"


class Arr(Model):
    """A one-dimensional array: pieces (name, first, size) of given arrays, in order."""
    API = ("shape", "size", "ndim", "dtype", "__len__", "__getitem__", "copy", "astype", "__iter__", "tobytes", "ravel", "flatten", "view", "__array_namespace__", "reshape")
    KINDS = ("numpy.ndarray",)
    KIND = type("ndarray", (), {})
    ndim = 1

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if not (isinstance(p[2], int) and p[2] == 0)]

    @property
    def size(self):
        n = 0
        for _, _, k in self.pieces:
            n = n + k
        return n

    @property
    def shape(self):
        return (self.size,)

    dtype = Dtype()

    def length(self):
        return self.size

    def copy(self, *args, **kw):
        return self

    astype = ravel = flatten = view = copy

    def reshape(self, *shape, **kw):
        if shape in ((-1,), ((-1,),)):
            return self
        raise Undecided("reshape")

    def __array_namespace__(self, **kw):
        raise Undecided("namespace")

    def __iter__(self):
        raise Undecided("iteration over an array")

    def cut(self, at):
        """Pieces before and after a position."""
        before, after, at = [], list(self.pieces), at
        pos = 0
        while after:
            s = same(pos, at)
            if s:
                return before, after
            name, first, n = after[0]
            end = pos + n
            past = False
            try:
                past = end > at
            except Undecided:
                pass
            if past and s is False or past:
                # within the piece
                k = at - pos
                try:
                    inside = k > 0
                except Undecided:
                    inside = None
                if inside:
                    return before + [(name, first, plainsize(size(k)))], [(name, first + k, plainsize(size(n - k)))] + after[1:]
                if inside is False:
                    return before, after
                raise Undecided("position within an array")
            before.append(after.pop(0))
            pos = end
        s = same(pos, at)
        if s:
            return before, after
        try:
            beyond = pos < at
        except Undecided:
            beyond = None
        if beyond:
            return before, after
        raise Undecided(f"position {at!r} in an array of {self.pieces}")

    def place(self, i, default):
        if i is None:
            return default
        if size(i) is None:
            raise Undecided("position")
        neg = None
        try:
            neg = i < 0
        except Undecided:
            pass
        if neg:
            return self.size + i
        if neg is None:
            raise Undecided("sign of a position")
        return i

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] is Ellipsis:
            k = k[1]
        if isinstance(k, slice) and k.step in (None, 1):
            lo, hi = self.place(k.start, 0), self.place(k.stop, self.size)
            # cut at the end first
            head = Arr(self.cut(hi)[0])
            return Arr(head.cut(lo)[1])
        raise Undecided("element of an array")

    def key(self):
        """Pieces, joined where they continue each other."""
        out = []
        for name, first, n in self.pieces:
            if out and out[-1][0] == name and same(out[-1][1] + out[-1][2], first):
                out[-1] = (name, out[-1][1], out[-1][2] + n)
            else:
                out.append((name, first, n))
        return out

    def __repr__(self):
        return "[" + ", ".join(n if same(f, 0) else f"{n} from {f!r}" for n, f, k in self.pieces) + "]"


class Ints(Model):
    """A one-dimensional array of numbers."""
    API = ("shape", "size", "ndim", "dtype", "__len__", "__getitem__", "tolist", "copy", "astype", "__iter__", "sum", "cumsum", "__contains__")
    KINDS = ("numpy.ndarray",)
    ndim = 1
    dtype = Dtype()

    def __init__(self, xs):
        self.xs = list(xs)

    size = property(lambda self: len(self.xs))
    shape = property(lambda self: (len(self.xs),))

    def length(self):
        return len(self.xs)

    def tolist(self):
        return list(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __contains__(self, x):
        return x in self.xs

    def copy(self, *a, **k):
        return Ints(self.xs)

    astype = copy

    def sum(self):
        n = 0
        for x in self.xs:
            n = n + x
        return n

    def cumsum(self):
        return Ints(sums(self.xs))

    def __getitem__(self, k):
        if isinstance(k, (Size, Ints, Arr)):
            raise Undecided("element")
        r = self.xs[k]
        return Ints(r) if isinstance(k, slice) else r

    def _each(self, o, f):
        if isinstance(o, Ints):
            if len(o.xs) != len(self.xs):
                raise Raised(ValueError("shapes do not match"))
            return Ints(f(a, b) for a, b in zip(self.xs, o.xs))
        return Ints(f(a, o) for a in self.xs)

    def __add__(self, o):
        return self._each(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._each(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._each(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._each(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __repr__(self):
        return repr(self.xs)


def sums(xs, zero=False):
    out = [0] if zero else []
    n = 0
    for x in xs:
        n = n + x
        out.append(n)
    return out


class Table(Model):
    """A structured array: columns of equal length."""
    API = ("dtype", "size", "shape", "ndim", "__len__", "__getitem__", "copy", "view", "astype")
    KINDS = ("numpy.ndarray", "numpy.recarray")
    ndim = 1

    def __init__(self, columns):
        self.columns = dict(columns)

    dtype = property(lambda self: Dtype(self.columns))
    size = property(lambda self: next(iter(self.columns.values())).size)
    shape = property(lambda self: (self.size,))

    def length(self):
        return self.size

    def copy(self, *a, **k):
        return self

    view = astype = copy

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.columns[k]
        if isinstance(k, slice):
            return Table({n: v[k] for n, v in self.columns.items()})
        raise Undecided("rows of a table")


class World:
    """Files and what happens to them."""

    def __init__(self, files=None, fail_at=None):
        self.files = dict(files or {})
        self.opened = []
        self.faults = []
        self.writes = 0
        self.fail_at = fail_at

    def fault(self, text):
        if text not in self.faults:
            self.faults.append(text)

    def still_open(self):
        return [f for f in self.opened if not f.closed]

    def step(self):
        """A write; the one chosen fails."""
        self.writes += 1
        if self.fail_at is not None and self.writes == self.fail_at:
            raise Raised(OSError("no space left on device"))


def path(x):
    if isinstance(x, (str, pathlib.PurePath)):
        return os.fspath(x)
    if isinstance(x, Handle):
        return x.name
    raise Undecided("file name")


class Handle(Model):
    """An open binary file."""
    API = ("__enter__", "__exit__", "close", "name", "flush", "closed")
    KINDS = ()

    def __init__(self, world, name, mode):
        self.world, self.name, self.mode, self.closed = world, path(name), mode, False
        if "w" in mode:
            world.files.pop(self.name, None)
        elif self.name not in world.files:
            raise Raised(FileNotFoundError(self.name))
        world.opened.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass


class Npz(Model):
    API = ("__enter__", "__exit__", "close", "files", "__getitem__", "__contains__", "keys", "values", "items", "__iter__", "__len__", "get")

    def __init__(self, world, name, data):
        self.world, self.name, self.data, self.closed = world, name, data, False
        world.opened.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def use(self):
        if self.closed:
            raise Raised(ValueError("the file has been closed"))

    @property
    def files(self):
        return list(self.data)

    def __iter__(self):
        return iter(self.data)

    def length(self):
        return len(self.data)

    def __contains__(self, k):
        return k in self.data

    def __getitem__(self, k):
        self.use()
        if k not in self.data:
            raise Raised(KeyError(f"{k} is not a file in the archive"))
        return self.data[k]

    def get(self, k, default=None):
        return self[k] if k in self.data else default

    def keys(self):
        return list(self.data)

    def values(self):
        self.use()
        return list(self.data.values())

    def items(self):
        self.use()
        return list(self.data.items())


def array(it, args, kw):
    x = args[0] if args else kw.get("object", kw.get("a", kw.get("obj")))
    if isinstance(x, (Arr, Ints, Table)):
        return x
    if isinstance(x, (list, tuple, Iterator)):
        xs = list(x)
        if all(size(v) is not None and not isinstance(v, bool) for v in xs):
            return Ints(xs)
        raise Undecided("array of arrays")
    if isinstance(x, (int, Size)):
        return x
    raise Undecided("array")


def concatenate(it, args, kw):
    xs = list(it.iterate(args[0] if args else kw.get("arrays", kw.get("tup"))))
    if kw.get("axis", args[1] if len(args) > 1 else 0) not in (0, None, -1):
        raise Undecided("axis")
    if not xs:
        raise Raised(ValueError("need at least one array to concatenate"))
    if all(isinstance(x, Arr) for x in xs):
        return Arr([p for x in xs for p in x.pieces])
    xs = [list(x) if isinstance(x, (list, tuple, Ints)) else None for x in xs]
    if None in xs:
        raise Undecided("concatenate")
    return Ints([v for x in xs for v in x])


def numbers(it, x):
    if isinstance(x, Ints):
        return x.xs
    if isinstance(x, (list, tuple, Iterator)):
        return list(x)
    raise Undecided("numbers")


def split(it, args, kw):
    x = args[0]
    at = args[1] if len(args) > 1 else kw["indices_or_sections"]
    if isinstance(at, Arr) and any(not isinstance(k, Size) or not k.parts for _, _, k in at.pieces if k != 0):
        raise Raised(TypeError("an array is split at the values of a spectrum"))
    if isinstance(x, Arr) and isinstance(at, int) and isinstance(plainsize(x.size), int) and at > 0:
        n = plainsize(x.size)
        if n % at:
            raise Raised(ValueError("array split does not result in an equal division"))
        return [x[slice(n // at * k, n // at * (k + 1))] for k in range(at)]
    if not isinstance(x, Arr) or isinstance(at, (int, Size)):
        raise Undecided("split into equal parts")
    at = numbers(it, at)
    # positions are those of slices
    places = [0, *at, x.size]
    return [x[slice(a, b)] if not empty(a, b) else Arr([]) for a, b in zip(places, places[1:])]


def empty(a, b):
    try:
        return bool(size(a) >= b) if not isinstance(a, int) or not isinstance(b, int) else a >= b
    except Undecided:
        return False


def arrays(world):
    """numpy"""
    def store(it, args, kw):
        name = args[0] if args else kw.pop("file")
        data = {}
        for k, v in {**{f"arr_{i}": v for i, v in enumerate(args[1:])}, **{k: v for k, v in kw.items() if k != "allow_pickle"}}.items():
            data[k] = array(it, [v], {}) if isinstance(v, (list, tuple)) else v
            if not isinstance(data[k], (Arr, Ints, int, Size, Table)):
                raise Undecided("value stored")
        if isinstance(name, Handle):
            if name.closed:
                raise Raised(ValueError("write to closed file"))
            name = name.name
        else:
            name = path(name)
            name = name if name.endswith(".npz") else name + ".npz"
        world.step()
        world.files[name] = data

    def load(it, args, kw):
        name = path(args[0] if args else kw.get("file"))
        if name not in world.files:
            raise Raised(FileNotFoundError(name))
        data = world.files[name]
        if not isinstance(data, dict):
            raise Raised(ValueError("not an archive"))
        return Npz(world, name, data)

    def cumulative(it, args, kw):
        x = args[0] if args else kw.get("x", kw.get("a"))
        if kw.get("axis") not in (None, 0, -1):
            raise Undecided("axis")
        return Ints(sums(numbers(it, x), kw.get("include_initial", False)))

    def diff(it, args, kw):
        xs = numbers(it, args[0])
        if "prepend" in kw:
            p = kw["prepend"]
            xs = [*(numbers(it, p) if isinstance(p, (list, tuple, Ints)) else [p]), *xs]
        if "append" in kw:
            p = kw["append"]
            xs = [*xs, *(numbers(it, p) if isinstance(p, (list, tuple, Ints)) else [p])]
        return Ints(b - a for a, b in zip(xs, xs[1:]))

    def full_sum(it, args, kw):
        return Ints(numbers(it, args[0])).sum()

    def append(it, args, kw):
        a, b = args
        return concatenate(it, [[a, b if isinstance(b, (Arr, Ints, list, tuple)) else [b]]], {})

    def insert(it, args, kw):
        xs = list(numbers(it, args[0]))
        if not isinstance(args[1], int):
            raise Undecided("insert")
        xs.insert(args[1], args[2])
        return Ints(xs)

    def fromarrays(it, args, kw):
        names = kw.get("names")
        if isinstance(names, str):
            names = [n.strip() for n in names.split(",")]
        xs = list(it.iterate(args[0]))
        if names is None or len(names) != len(xs):
            raise Undecided("fromarrays")
        return Table(dict(zip(names, xs)))

    one = Builtin(array)
    ident = lambda n: Opaque(f"numpy.{n}")
    names = dict(asarray=one, array=one, asanyarray=one, ascontiguousarray=one, atleast_1d=one, concatenate=Builtin(concatenate), concat=Builtin(concatenate), hstack=Builtin(concatenate),
                 cumulative_sum=Builtin(cumulative), cumsum=Builtin(cumulative), split=Builtin(split), array_split=Builtin(lambda it, a, k: split(it, a, k) if not isinstance(a[1], int) else it.unknown("array_split")), savez=Builtin(store), savez_compressed=Builtin(store),
                 load=Builtin(load), diff=Builtin(diff), sum=Builtin(full_sum), append=Builtin(append), insert=Builtin(insert),
                 size=Builtin(lambda it, a, k: it.attr(a[0], "size")), shape=Builtin(lambda it, a, k: it.attr(a[0], "shape")), ndim=Builtin(lambda it, a, k: 1),
                 add=Namespace("numpy.add", accumulate=Builtin(cumulative), reduce=Builtin(full_sum)), rec=Namespace("numpy.rec", fromarrays=Builtin(fromarrays)),
                 array_equal=Builtin(lambda it, a, k: it.unknown("array_equal")))
    for n in ("ndarray", "recarray", "generic", "int64", "intp", "float64", "float32", "int32", "int_", "integer"):
        names[n] = ident(n)
    return Namespace("numpy", **names)


# ------------------------------------------------------------------------ FITS
class Hdu(Model):
    API = ("get_nrows", "get_extnum", "get_extname", "write", "append", "write_column", "write_columns", "get_colnames", "has_data", "get_info", "get_exttype", "write_key", "write_keys",
           "write_comment", "write_history", "write_checksum", "__getitem__", "__len__")

    def __init__(self, fits, number, name=None, table=False):
        self.fits, self.number, self.name, self.table = fits, number, name, table
        self.columns = {}       # name -> [pieces]
        self.rows = 0

    def __repr__(self):
        return f"extension {self.number}"

    def use(self):
        if self.fits.closed:
            self.fits.world.fault(f"{self.fits.name} is used after it was closed")
            raise Raised(OSError("FITS file is not open"))

    def get_nrows(self):
        self.use()
        return self.rows

    def length(self):
        return self.get_nrows()

    def get_extnum(self):
        return self.number

    def get_extname(self):
        return self.name or ""

    def get_exttype(self, num=False):
        return "BINARY_TBL" if self.table else "IMAGE_HDU"

    def get_colnames(self):
        return list(self.columns)

    def has_data(self):
        return bool(self.columns)

    def write_key(self, *a, **k):
        self.use()

    write_keys = write_comment = write_history = write_checksum = write_key

    def append(self, data, columns=None, names=None, **kw):
        self.use()
        self.put(data, columns if columns is not None else names, self.rows)

    def write(self, data, columns=None, names=None, firstrow=0, slow=None, **kw):
        self.use()
        if kw:
            raise Undecided("options of write")
        if not self.table:
            raise Undecided("image")
        self.put(data, columns if columns is not None else names, firstrow)

    def write_columns(self, data, columns=None, firstrow=0):
        self.write(data, columns=columns, firstrow=firstrow)

    def write_column(self, name, data, firstrow=0, **kw):
        self.put([data], [name], firstrow, partial=True)

    def put(self, data, names, first, partial=False):
        self.fits.world.step()
        batch = columns(data, names)
        self.insert(batch, first, partial)

    def insert(self, batch, first, partial=False):
        w = self.fits.world
        n = None
        for name, x in batch.items():
            if not isinstance(x, Arr):
                raise Undecided("column")
            if n is not None and same(n, x.size) is not True:
                raise Undecided("columns of different length")
            n = x.size
        if size(first) is None:
            raise Undecided("row")
        if same(first, self.rows) is not True:
            d = size(first) - self.rows
            try:
                over = d < 0
            except Undecided:
                over = None
            if same(first, self.rows) is None and over is None:
                raise Undecided(f"row {first!r} of {self.rows!r}")
            have = 0
            for x in self.columns.get(next(iter(batch)), ()):
                have = have + x.size
            if partial and same(first, have):
                pass
            else:
                w.fault(f"a batch is written from row {first!r} when {self.rows!r} rows have been written ({'over rows already there' if over else 'leaving rows between'})")
                return
        for name, x in batch.items():
            if name not in self.columns:
                if not partial and not (isinstance(self.rows, int) and self.rows == 0):
                    raise Raised(ValueError(f"column {name} not found"))
                self.columns[name] = []
            self.columns[name].append(x)
        if same(first, self.rows):
            self.rows = self.rows + n


def columns(data, names):
    """Columns by name."""
    if isinstance(data, Table):
        if names is not None:
            raise Undecided("names of a structured array")
        return dict(data.columns)
    if isinstance(data, dict):
        if names is not None:
            return {k: data[k] for k in names}
        return dict(data)
    if isinstance(names, str):
        names = [names]
    if isinstance(names, Iterator):
        names = list(names)
    if isinstance(data, (list, tuple, Iterator)):
        data = list(data)
        if names is None:
            raise Raised(ValueError("names are needed for a list of arrays"))
        names = list(names)
        if len(names) != len(data):
            raise Raised(ValueError("as many names as columns are needed"))
        return dict(zip(names, data))
    if isinstance(data, Arr):
        raise Raised(ValueError("data must be a structured array, a list or a dictionary"))
    raise Undecided("data of a table")


class Fits(Model):
    API = ("__enter__", "__exit__", "close", "write", "write_table", "write_image", "create_table_hdu", "create_image_hdu", "__getitem__", "__contains__", "__len__", "__iter__",
           "update_hdu_list", "reopen", "movabs_ext")

    def __init__(self, world, filename, mode="r", clobber=False, **kw):
        self.world, self.name, self.closed = world, path(filename), False
        self.mode = mode
        if mode not in ("r", "rw", 0, 1):
            raise Undecided("mode")
        if clobber or self.name not in world.files:
            if mode in ("r", 0):
                raise Raised(OSError("file does not exist"))
            world.files[self.name] = []
        if not isinstance(world.files[self.name], list):
            raise Raised(OSError("not a FITS file"))
        self.hdus = world.files[self.name]
        for h in self.hdus:
            h.fits = self
        world.opened.append(self)

    def __repr__(self):
        return "FITS"

    def use(self):
        if self.closed:
            self.world.fault(f"{self.name} is used after it was closed")
            raise Raised(OSError("FITS file is not open"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def reopen(self):
        self.closed = False

    def update_hdu_list(self, **kw):
        self.use()

    movabs_ext = update_hdu_list

    def length(self):
        self.use()
        return len(self.hdus)

    def __iter__(self):
        self.use()
        return iter(list(self.hdus))

    def __contains__(self, ext):
        self.use()
        try:
            self[ext]
        except Raised:
            return False
        return True

    def __getitem__(self, ext):
        self.use()
        if isinstance(ext, bool) or not isinstance(ext, (int, str)):
            if ext is None:
                raise Raised(OSError("extension not found"))
            raise Undecided("extension")
        if isinstance(ext, int):
            try:
                return self.hdus[ext]
            except IndexError:
                raise Raised(IndexError(ext)) from None
        for h in self.hdus:
            if h.name is not None and h.name.upper() == ext.upper():
                return h
        raise Raised(OSError(f"extension not found: {ext}"))

    def write_image(self, img=None, *args, extname=None, **kw):
        self.use()
        self.world.step()
        self.hdus.append(Hdu(self, len(self.hdus), extname))

    create_image_hdu = write_image

    def write(self, data=None, *args, names=None, extname=None, table_type=None, header=None, **kw):
        if data is None or isinstance(data, Arr) and names is None:
            return self.write_image(data, extname=extname)
        self.write_table(data, names=names, extname=extname)

    def write_table(self, data=None, table_type=None, names=None, formats=None, units=None, extname=None, extver=None, header=None, write_bitcols=False, **kw):
        self.use()
        if kw:
            raise Undecided("options of write_table")
        self.world.step()
        batch = columns(data, names)
        if not self.hdus:
            self.hdus.append(Hdu(self, 0))
        if extname is not None and not isinstance(extname, str):
            raise Undecided("name of an extension")
        h = Hdu(self, len(self.hdus), extname, table=True)
        self.hdus.append(h)
        h.insert(batch, 0)

    def create_table_hdu(self, data=None, dtype=None, names=None, extname=None, **kw):
        self.use()
        if data is None or kw:
            raise Undecided("create_table_hdu")
        if not self.hdus:
            self.hdus.append(Hdu(self, 0))
        h = Hdu(self, len(self.hdus), extname, table=True)
        for k in columns(data, names):
            h.columns[k] = []
        self.hdus.append(h)


def modules(world):
    fitsio = Namespace("fitsio", FITS=Builtin(lambda it, a, k: Fits(world, *a, **k)))
    libs = standard()
    libs |= {"numpy": arrays(world), "fitsio": fitsio,
             "pathlib": Namespace("pathlib", Path=Builtin(lambda it, a, k: pathlib.PurePosixPath(*a)), PurePath=Builtin(lambda it, a, k: pathlib.PurePosixPath(*a))),
             "os": Namespace("os", fspath=Builtin(lambda it, a, k: path(a[0])), PathLike=Opaque("os.PathLike"))}
    return libs


def opener(world):
    return Builtin(lambda it, a, k: Handle(world, a[0], a[1] if len(a) > 1 else k.get("mode", "r")))
