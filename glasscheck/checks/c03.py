"""Results depend only on the arguments and the generator state.

Effect analysis over every entry point with all helpers inlined.  Obligations: every
write to state that outlives the call (module globals, attributes of functions,
classes or modules, containers held by a module, default arguments, memo tables,
attributes of objects that are not documented as stateful, process-wide settings of
the interpreter or of NumPy) must not happen; every value read from a source outside
the arguments (clocks, entropy, process identity, environment, process-wide random
state, hash order of sets, identity of objects) must not flow into a result, a branch,
a loop bound, a draw or the state of an object.  The location of the HEALPix data
files is the one environment variable that is documented to be read.
"""

import ast
import re

from ..deps import outermost
from ..interp import Config, analyse
from ..ir import deps, show
from ..util import entries, short
from .. import project as pj
from .c01 import Roots

SOURCES = [
    (r"time\.(?!sleep)\w+$", "a clock"),
    (r"datetime\..*(now|today|utcnow)$", "a clock"),
    (r"random\.(?!Random$)\w+$", "process-wide random state"),
    (r"secrets\.\w+$", "entropy"),
    (r"os\.(urandom|getrandom)$", "entropy"),
    (r"os\.(getpid|getppid|getcwd|getlogin|cpu_count|times|getloadavg|sched_getaffinity|uname)$", "the process or machine"),
    (r"uuid\.\w+$", "entropy"),
    (r"builtins\.id$", "object identity"),
    (r"(threading|_thread)\.(get_ident|get_native_id|current_thread|active_count)$", "thread identity"),
    (r"(sys\.getrefcount|sys\.getsizeof|gc\.\w+)$", "interpreter internals"),
    (r"platform\.\w+$", "the machine"),
    (r"socket\.\w+$", "the machine"),
    (r"(np|numpy)\.random\.(?!default_rng|Generator|SeedSequence|PCG64|Philox|MT19937|RandomState|SFC64)\w+$",
     "process-wide random state"),
]
SEEDLESS = re.compile(r"(np\.random\.(default_rng|RandomState|SeedSequence|PCG64|Philox|MT19937|SFC64)|random\.Random)$")
SETTERS = re.compile(r"((np|numpy)\.(seterr|seterrcall|set_printoptions|setbufsize)|(np|numpy)\.random\.(seed|set_state)"
                     r"|random\.(seed|setstate)|os\.(putenv|unsetenv|chdir|umask)|warnings\.(simplefilter|filterwarnings|resetwarnings)"
                     r"|jax\.config\.update|jax\.config\.\w+|sys\.set\w+|locale\.setlocale|decimal\.(setcontext)"
                     r"|logging\.(disable|basicConfig)|os\.environ\.(update|setdefault|pop|clear|__setitem__))$")
ENV_OK = {"HEALPY_DATAPATH"}
STATEFUL = ("MultiPlaneConvergence", "_FitsWriter")


def source_kind(fn):
    for pat, what in SOURCES:
        if re.match(pat, fn):
            return what
    return None


def influence(it):
    """Nodes that flow into results, branches, loops, draws or object state."""
    return deps(roots_of(it))


PARTIAL = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "float_power", "sqrt", "log", "log10", "log2", "log1p", "exp", "expm1",
           "reciprocal", "arctan2", "atan2", "arccos", "arcsin", "acos", "asin", "cos", "sin", "tan", "absolute", "fabs", "square", "remainder", "mod", "fmod",
           "maximum", "minimum", "hypot", "negative", "sign", "isnan", "isfinite", "greater", "less", "equal"}


def uninitialised(n):
    """A function applied to some elements only, which leaves the others without a value."""
    if n.op != "call" or not n.data[0].startswith(("np.", "numpy.", "jnp.")) or n.data[0].rpartition(".")[2] not in PARTIAL:
        return False
    kw = dict(zip(n.data[1], n.args))
    w, o = kw.get("where"), kw.get("out")
    return w is not None and not (w.op == "const" and w.data in (None, True)) and (o is None or o.op == "const" and o.data is None)


def choosing(n):
    """Values that may be chosen from what they are computed from."""
    if n.op == "call":
        return n.data[0].rpartition(".")[2] in ("where", "nan_to_num", "select", "choose", "compress", "extract", "take", "nonzero") or \
            "where" in n.data[1] and not uninitialised(n)
    if n.op == "index":
        return n.args[1].op != "const"
    return n.op in ("phi", "setitem", "update", "mutated", "opaque") or n.op == "bin" and n.data == "*" and any(a.op == "cmp" for a in n.args)


def roots_of(it):
    roots = []
    if it.result is not None:
        roots.append(it.result)
    for e in it.events:
        if e.kind in ("yield", "return", "attr_write", "attr_init", "draw", "ucall", "mutate", "extcall", "mcall", "primcall"):
            if e.node is not None and e.kind not in ("extcall", "mcall"):
                roots.append(e.node)
            for k in ("value", "index"):
                v = e.info.get(k)
                if v is not None and hasattr(v, "op"):
                    roots.append(v)
        if e.kind == "raise":
            roots += [c for c, _ in e.pc]
    for lp in it.loops.values():
        for x in (lp.iter, lp.cond):
            if x is not None:
                roots.append(x)
    for oid, d in it.state.heap.items():
        info = it.objs.get(oid, {})
        if info.get("kind") == "inst":
            roots += [v for v in d.values() if v is not None and hasattr(v, "op")]
    return roots


def mutable_default(d):
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(d, ast.Call):
        f = d.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return n in {"list", "dict", "set", "deque", "defaultdict", "OrderedDict", "Counter", "zeros", "ones", "empty",
                     "array", "bytearray", "default_rng", "Generator", "RandomState", "count", "iter"}
    return False


MUTS = {"append", "extend", "insert", "update", "setdefault", "pop", "clear", "add", "remove", "popitem", "discard",
        "sort", "reverse", "appendleft", "popleft", "fill", "random", "normal", "poisson", "standard_normal", "uniform",
        "multinomial", "integers"}


def check(c):
    p = c.project
    done = set()

    def once(status, rule, cons, detail="", loc=None):
        k = (status, rule, cons, str(loc))
        if k not in done:
            done.add(k)
            getattr(c, status)(rule, cons, detail, loc)

    # mutable default arguments that are modified
    for q, (module, cls, fn) in all_functions(p):
        a = fn.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for prm, d in pairs:
            if not mutable_default(d):
                continue
            hit = None
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTS \
                        and isinstance(n.func.value, ast.Name) and n.func.value.id == prm.arg:
                    hit = n
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == prm.arg:
                            hit = n
                        if isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id == prm.arg:
                            hit = n
            rebound = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == prm.arg for t in n.targets)
                          for n in ast.walk(fn))
            cons = f"{short(q)}:{prm.arg}"
            if hit is not None and not rebound:
                c.bad("no state in default arguments", cons, f"the default {ast.unparse(d)} is modified and kept between calls",
                      (module.rel, hit.lineno, q.partition(":")[2]))
            else:
                c.unk("no state in default arguments", cons, f"mutable default {ast.unparse(d)}", (module.rel, fn.lineno, fn.name))

    for q in entries(p):
        r = p.find_func(q)
        cls = r[1].name if r[1] is not None else None
        stateful = cls is not None and (cls in STATEFUL or "Generator" in cls)
        nviol = 0
        for backend in ("numpy", "jax.numpy"):
            it = analyse(p, q, Config(backend=backend))
            if backend == "numpy":
                c.count(it)
            inf = None
            roots = Roots(it)
            before = len([1 for o in c.obs if o["status"] == "violated"])
            for e in it.events:
                f = e.loc[2]
                if e.kind == "global_write":
                    if e.node is not None and e.node.op in ("mod", "ns", "func", "cls"):
                        continue
                    once("bad", "no module state is written", f"{short(q)}:{e.info['name']}",
                         f"global {e.info['name']} of {e.info['module']} is assigned", e.loc)
                elif e.kind == "module_write":
                    once("bad", "no module state is written", f"{short(q)}:{show(e.node, 2)}.{e.info['attr']}",
                         "an attribute of a module, class or function is assigned", e.loc)
                elif e.kind == "next" and e.info["src"].op == "global":
                    once("bad", "no module state is written", f"{short(q)}:{f}:{e.info['src'].data}",
                         "an iterator kept by the module is advanced", e.loc)
                elif e.kind == "nscall":
                    fn = f"{e.info['ns']}.{e.info['name']}"
                    if SETTERS.match(fn):
                        once("bad", "no process-wide setting is changed", f"{short(q)}:{fn}", f"{fn} is called", e.loc)
                elif e.kind == "hashorder":
                    once("bad" if foreign_keys(e.node) else "unk", "no dependence on hash order", f"{short(q)}:{f}",
                         f"the elements of {show(e.node, 2)} are listed in hash order", e.loc)
                elif e.kind == "cache":
                    cache_rule(c, p, q, e, once)
                elif e.kind == "mutate":
                    rs = [x for x in roots.of(e.node) if x[0] == "global"]
                    env = [x for x in deps([e.node]).values() if x.op == "ext" and x.data == "os.environ"]
                    if env:
                        once("bad", "no process-wide setting is changed", f"{short(q)}:{f}", "os.environ is modified", e.loc)
                    elif rs:
                        once("bad", "no module state is written", f"{short(q)}:{f}:{rs[0][1]}",
                             f"{e.info.get('how')} changes {rs[0][1]}, which is kept by the module", e.loc)
                elif e.kind == "attr_write" and not stateful and q.rpartition(".")[2] not in ("__init__", "__post_init__"):
                    an = e.info["attr"]
                    ocls = it.objs[e.node.data]["cls"] if e.node.op == "ref" else "?"
                    if any(s in ocls for s in STATEFUL) or "Generator" in ocls:
                        continue
                    rd = reads_attr(p, ocls, an)
                    once("bad" if rd else "unk", "objects keep no hidden state", f"{short(q)}:{an}",
                         f"self.{an} is written by a call" + (" and read again" if rd else ""), e.loc)
                elif e.kind == "extcall":
                    fn = str(e.info["fn"])
                    if SETTERS.match(fn):
                        guarded = any(x.kind == "with_enter" and "catch_warnings" in show(x.node, 3) for x in it.events)
                        if fn.startswith("warnings.") and guarded:
                            continue
                        once("bad", "no process-wide setting is changed", f"{short(q)}:{fn}", f"{fn} is called", e.loc)
                        continue
                    what = source_kind(fn)
                    args = e.info["args"]
                    if fn in ("os.getenv", "os.environ.get", "os.environ.__getitem__"):
                        if args and args[0].op == "const" and args[0].data in ENV_OK:
                            once("ok", "no hidden input", f"{short(q)}:{args[0].data}", "documented location of data files", e.loc)
                            continue
                        what = "the environment"
                    if SEEDLESS.match(fn):
                        a0 = args[0] if args else dict(e.info.get("kwargs") or {}).get("seed")
                        if a0 is None or (a0.op == "const" and a0.data is None):
                            once("bad", "no hidden input", f"{short(q)}:{fn}", f"{fn} is seeded from entropy", e.loc)
                        continue
                    if what is None:
                        continue
                    inf = inf or influence(it)
                    flows = any(n.op == "call" and n.data[0] == fn for n in inf.values()) or \
                        any(n.op == "draw" and n.data is not None and str(n.data).startswith(fn) for n in inf.values())
                    drawn = any(x.kind == "draw" and x.info.get("method") == fn for x in it.events)
                    once("bad" if flows or drawn else "unk", "no hidden input", f"{short(q)}:{fn}",
                         f"{what} ({fn}) " + ("influences the result" if flows or drawn else "is read"), e.loc)
                elif e.kind == "draw":
                    for s in glob_sources(e.info["src"]):
                        once("bad", "no hidden input", f"{short(q)}:{f}:{show(s, 1)}",
                             "draws from a generator that is kept between calls", e.loc)
            inf = inf or influence(it)
            for n in inf.values():
                if n.op == "call" and n.data[0] in ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.iter",
                                                    "builtins.next") and n.args and is_set(it, n.args[0]) \
                        and foreign_keys(n.args[0]):
                    once("bad", "no dependence on hash order", f"{short(q)}:{show(n.args[0], 2)}",
                         "the hash order of a set of arbitrary keys influences the result", n.loc)
                if uninitialised(n):
                    flows = any(n.id in outermost(r, uninitialised, choosing) for r in roots_of(it))
                    once("bad" if flows else "unk", "no values that were never set", f"{short(q)}:{n.data[0]}",
                         f"{n.data[0]} computes some elements only and leaves the others as they happen to be in memory", n.loc)
                # environment read by subscription
                if n.op == "index" and n.args[0].op == "ext" and n.args[0].data == "os.environ":
                    k = n.args[1]
                    if not (k.op == "const" and k.data in ENV_OK):
                        once("bad", "no hidden input", f"{short(q)}:os.environ", "the environment influences the result", n.loc)
            for lp in it.loops.values():
                if lp.iter is not None and is_set(it, lp.iter):
                    ordered = [e for e in it.events if lp.id in e.loops and e.kind in ("draw", "yield")]
                    app = any(n.op == "append" for m in lp.mus.values() if hasattr(m, "op") and m.back is not None
                              for n in deps([m.back]).values())
                    once("bad" if (ordered or app) and foreign_keys(lp.iter) else "unk", "no dependence on hash order", f"{short(q)}:{lp.loc[2]}",
                         "iterates over a set in hash order" + (" while drawing or collecting in order" if ordered or app else ""),
                         lp.loc)
            if len([1 for o in c.obs if o["status"] == "violated"]) > before:
                nviol += 1
        if not nviol:
            c.ok("closed over its arguments", short(q), f"{len(it.events)} effects and calls examined")


def is_set(it, n):
    if n.op == "set":
        return True
    if n.op == "ref" and it.objs.get(n.data, {}).get("kind") == "set":
        return True
    if n.op == "call" and n.data[0] in ("builtins.set", "builtins.frozenset"):
        return True
    if n.op == "call" and n.data[0] in ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.iter") and n.args:
        return is_set(it, n.args[0])
    if n.op in ("bin",) and n.data in ("|", "&", "-", "^"):
        return is_set(it, n.args[0])
    return False


def foreign_keys(n):
    """The elements may be keys of a kind whose hash differs from run to run."""
    for x in deps([n]).values():
        if x.op == "param" and x.meta and x.meta.get("ann") is not None:
            a = ast.unparse(x.meta["ann"])
            if re.search(r"Mapping|dict|str|Sequence|Iterable", a):
                return True
    return False


def glob_sources(n, seen=None):
    seen = set() if seen is None else seen
    if n.id in seen:
        return []
    seen.add(n.id)
    if n.op == "phi":
        return glob_sources(n.args[1], seen) + glob_sources(n.args[2], seen)
    if n.op == "mu":
        return glob_sources(n.args[0], seen) + (glob_sources(n.back, seen) if n.back is not None else [])
    if n.op == "global":
        return [n]
    return []


def cache_rule(c, p, q, e, once):
    f = e.node
    qual = str(f.data) if f is not None and f.op == "func" else str(e.loc[2])
    r = p.find_func(qual) if ":" in qual else None
    ann = ast.unparse(r[2].returns) if r and r[2].returns is not None else ""
    arrays = "Array" in ann or "Generator" in ann or "Spectra" in ann or "list" in ann.lower() or "dict" in ann.lower()
    once("bad" if arrays else "unk", "no memo of mutable results", f"{short(qual)}",
         f"{e.info.get('how')} keeps the result ({ann or 'unknown type'}) and hands the same object to later calls", e.loc)


def reads_attr(p, cls, name):
    mod, _, cn = cls.partition(":")
    m = p.modules.get(mod)
    b = m.bind.get(cn) if m else None
    if not b or b[0] != "class":
        return False
    return any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) for n in ast.walk(b[1]))


def all_functions(p):
    for m in p.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                for st in node.body:
                    if isinstance(st, ast.FunctionDef) and not pj.is_overload(st):
                        yield f"{m.name}:{node.name}.{st.name}", (m, node, st)
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef) and not pj.is_overload(st):
                yield f"{m.name}:{st.name}", (m, None, st)
