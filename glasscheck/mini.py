"""Evaluation of statements with effects over modelled objects.

Statements are interpreted in order over Python values and models of files and arrays (files.py), so
that objects with states (open, closed), context managers, generators and exceptions keep their
meaning.  Anything not modelled ends the evaluation as undecided (Undecided).
"""

from __future__ import annotations

import ast
import builtins
import operator


class Undecided(Exception):
    """Outside what is modelled."""


class Raised(Exception):
    """An exception of the program."""

    def __init__(self, value):
        super().__init__(repr(value))
        self.value = value


class Signal(Exception):
    pass


class Return(Signal):
    def __init__(self, value):
        self.value = value


class Break(Signal):
    pass


class Continue(Signal):
    pass


class Opaque:
    """A value of which nothing is known; it can be handed around."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"


class Func:
    def __init__(self, node, env, name, module=None, cls=None):
        self.node, self.env, self.name, self.module, self.cls = node, env, name, module, cls
        self.generator = not isinstance(node, ast.Lambda) and has_yield(node)
        self.defaults = None
        self.manager = False


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Class:
    def __init__(self, name, attrs, bases):
        self.name, self.attrs, self.bases = name, attrs, bases
        self.fields = None

    def find(self, name, skip=None):
        for c in self.mro():
            if skip is not None:
                if c is skip:
                    skip = None
                continue
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name]
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                out += [c for c in b.mro() if c not in out]
            else:
                out.append(b)
        return out


class Property:
    def __init__(self, func):
        self.func = func


class Static:
    def __init__(self, func):
        self.func = func


class ClassMethod(Static):
    pass


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Managed:
    """A generator function used as a context manager."""

    def __init__(self, call):
        self.call = call    # call(hook) runs the generator


class Model:
    """Base of modelled objects: attributes and methods of the Python class are those of the object.

    Methods the program may call are listed in API; anything else is undecided.
    """
    API = ()


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack += list(ast.iter_child_nodes(n))
    return False


class Env:
    def __init__(self, parent=None, module=None, hook=None):
        self.vars = {}
        self.parent = parent
        self.module = module if module is not None or parent is None else parent.module
        self.hook = hook
        self.globals = set()
        self.nonlocals = set()
        self.func = None
        self.first = None


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
       ast.MatMult: operator.matmul, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
       ast.Is: operator.is_, ast.IsNot: operator.is_not}
PLAIN = (int, float, complex, str, bytes, bool, type(None), list, tuple, dict, set, frozenset, range, slice)
NAMES = {"len", "list", "tuple", "dict", "set", "frozenset", "range", "enumerate", "zip", "map", "filter", "sorted", "reversed", "min", "max", "sum", "any", "all",
         "abs", "isinstance", "issubclass", "callable", "getattr", "setattr", "hasattr", "iter", "next", "int", "float", "str", "bool", "repr", "print", "object", "slice", "type", "id",
         "super", "property", "staticmethod", "classmethod", "vars", "divmod", "round", "open", "bytes"}


class Iterator:
    def __init__(self, xs):
        self.xs = iter(xs)

    def __iter__(self):
        return self.xs


class Mini:
    FUEL = 200000

    def __init__(self, project, modules=None):
        self.p = project
        self.models = modules or {}
        self.envs = {}
        self.fuel = self.FUEL
        self.functions = set()

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name not in self.envs:
            self.envs[name] = Env(module=self.p.modules[name])
        return self.envs[name]

    def public(self, name, module="glass"):
        """The value of a public name."""
        return self.glob(self.module(module), name)

    def glob(self, env, name):
        while env.parent is not None:
            env = env.parent
        if name in env.vars:
            return env.vars[name]
        m = env.module
        b = m.bind.get(name)
        if b is None and name == "__name__":
            return m.name
        if b is None:
            raise KeyError(name)
        if b[0] == "def":
            v = self.decorated(b[1], Func(b[1], env, b[1].name, m), env)
        elif b[0] == "class":
            v = self.klass(b[1], env)
        elif b[0] == "assign":
            v = self.ev(b[1], env)
        elif b[0] == "mod":
            v = self.imported(b[1])
        elif b[0] == "from":
            v = self.imported_from(b[1], b[2])
        else:
            raise Undecided(f"global {name}")
        env.vars[name] = v
        return v

    def imported(self, name):
        if name in self.models:
            return self.models[name]
        if name in self.p.modules:
            return self.module(name)
        return Opaque(f"module {name}")

    def imported_from(self, base, name):
        full = f"{base}.{name}"
        if full in self.models:
            return self.models[full]
        if base in self.models:
            return self.attr(self.models[base], name)
        if base in self.p.modules:
            m = self.p.modules[base]
            if name in m.bind:
                try:
                    return self.glob(self.module(base), name)
                except KeyError:
                    pass
            if full in self.p.modules:
                return self.module(full)
        return Opaque(full)

    # ----------------------------------------------------------- functions
    def decorated(self, node, v, env):
        for d in reversed(node.decorator_list):
            f = self.ev(d, env)
            v = self.call(f, [v], {})
        return v

    def klass(self, node, env):
        e = Env(env)
        e.vars["__classbody__"] = True
        self.block(node.body, e)
        attrs = {k: v for k, v in e.vars.items() if k != "__classbody__"}
        bases = [self.ev(b, env) for b in node.bases]
        for b in bases:
            if not isinstance(b, (Class, type, Opaque)):
                raise Undecided(f"base of {node.name}")
        c = Class(node.name, attrs, bases)
        c.annotations = [(s.target.id, s.value is not None) for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
                         and "ClassVar" not in ast.unparse(s.annotation)]
        for v in attrs.values():
            f = v.func if isinstance(v, (Property, Static)) else v
            if isinstance(f, Func):
                f.cls = c
        v = c
        for d in reversed(node.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        out = {}
        pos = [*a.posonlyargs, *a.args]
        names = [x.arg for x in pos]
        only = {x.arg for x in a.posonlyargs}
        if len(args) > len(pos) and a.vararg is None:
            raise Raised(TypeError(f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names and k not in only or k in kwonly:
                if k in out:
                    raise Raised(TypeError(f"{f.name}() got multiple values for argument '{k}'"))
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised(TypeError(f"{f.name}() got an unexpected keyword argument '{k}'"))
        if a.kwarg:
            out[a.kwarg.arg] = extra
        defaults, kwdefaults = self.defaults(f)
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            out.setdefault(n, d)
        for n, d in kwdefaults.items():
            out.setdefault(n, d)
        for n in names + kwonly:
            if n not in out:
                raise Raised(TypeError(f"{f.name}() missing a required argument: '{n}'"))
        return out

    def defaults(self, f):
        if f.defaults is None:
            a = f.node.args
            f.defaults = ([self.ev(d, f.env) for d in a.defaults],
                          {x.arg: self.ev(d, f.env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return f.defaults

    def run(self, f, args, kwargs, hook=None):
        self.functions.add(f.name)
        env = Env(f.env, hook=hook)
        env.vars.update(self.bind_args(f, args, kwargs))
        env.func = f
        env.first = args[0] if args else None
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        try:
            self.block(f.node.body, env)
        except Return as r:
            return r.value
        return None

    def call(self, f, args, kwargs):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too many steps")
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj, *args], kwargs)
        if isinstance(f, (Static, ClassMethod)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Func):
            if f.manager:
                return Managed(lambda hook: self.run(f, args, kwargs, hook))
            if f.generator:
                out = []
                self.run(f, args, kwargs, hook=out.append)
                return Iterator(out)
            return self.run(f, args, kwargs)
        if isinstance(f, Class):
            return self.new(f, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.find("__call__")
            if m is not None:
                return self.call(m, [f, *args], kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[repr(a) for a in args])
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if callable(f) and not isinstance(f, (Opaque, Model)):
            return self.native(f, args, kwargs)
        if isinstance(f, Model) and "__call__" in f.API:
            return self.native(f, args, kwargs)
        raise Undecided(f"call of {f!r}")

    def native(self, f, args, kwargs):
        """A function of a model, or of a plain Python value."""
        try:
            return f(*args, **kwargs)
        except (Raised, Undecided, Signal):
            raise
        except (KeyError, IndexError, ValueError, TypeError, AttributeError, StopIteration) as ex:
            if getattr(f, "__self__", None) is not None and isinstance(f.__self__, PLAIN) or f in (int, float, list, tuple, dict):
                raise Raised(ex) from None
            raise Undecided(f"{type(ex).__name__} in a model: {ex}") from ex

    def new(self, c, args, kwargs):
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro()):
            o = Obj(c)
            o.attrs["args"] = tuple(args)
            return o
        if any(isinstance(b, (type, Opaque)) and b is not object and not (isinstance(b, Opaque) and ("Protocol" in b.what or "Generic" in b.what)) for b in c.mro()):
            raise Undecided(f"base of {c.name}")
        if c.find("__new__") is not None:
            raise Undecided(f"{c.name}.__new__")
        o = Obj(c)
        init = c.find("__init__")
        if init is not None:
            self.call(init, [o, *args], kwargs)
        elif c.fields is not None:
            names = [n for n, _ in c.fields]
            if len(args) > len(names):
                raise Raised(TypeError("too many arguments"))
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    raise Raised(TypeError(f"unexpected argument {k}"))
                vals[k] = v
            for n, default in c.fields:
                if n not in vals:
                    if not default:
                        raise Raised(TypeError(f"missing argument {n}"))
                    d = c.find(n)
                    vals[n] = self.call(d.factory, [], {}) if isinstance(d, Factory) else d
            o.attrs.update(vals)
            post = c.find("__post_init__")
            if post is not None:
                self.call(post, [o], {})
        elif args or kwargs:
            raise Raised(TypeError(f"{c.name}() takes no arguments"))
        return o

    # ---------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("too many steps")
            m = getattr(self, "st_" + type(st).__name__, None)
            if m is None:
                raise Undecided(type(st).__name__)
            m(st, env)

    def st_Expr(self, st, env):
        self.ev(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        raise Return(self.ev(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise Break

    def st_Continue(self, st, env):
        raise Continue

    def st_Global(self, st, env):
        env.globals |= set(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def st_FunctionDef(self, st, env):
        self.assign_name(st.name, self.decorated(st, Func(st, self.enclosing(env), st.name, env.module), env), env)

    def st_ClassDef(self, st, env):
        self.assign_name(st.name, self.klass(st, env), env)

    def enclosing(self, env):
        """Functions in a class body do not see its names."""
        while "__classbody__" in env.vars:
            env = env.parent
        return env

    def st_Import(self, st, env):
        for a in st.names:
            self.assign_name(a.asname or a.name.split(".")[0], self.imported(a.name if a.asname else a.name.split(".")[0]), env)

    def st_ImportFrom(self, st, env):
        if st.level:
            raise Undecided("relative import")
        for a in st.names:
            self.assign_name(a.asname or a.name, self.imported_from(st.module, a.name), env)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()), env)
            put = lambda v: self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.attr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            old = self.item(o, k)
            put = lambda v: self.setitem(o, k, v)
        v = self.ev(st.value, env)
        if isinstance(old, list) and isinstance(st.op, ast.Add):
            old.extend(self.iterate(v))
            put(old)
            return
        put(self.binop(st.op, old, v))

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.ev(t.slice, env)
                if not isinstance(o, (list, dict)):
                    raise Undecided("del")
                self.native(o.__delitem__, [k], {})
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if not isinstance(o, Obj):
                    raise Undecided("del")
                o.attrs.pop(t.attr, None)

    def st_If(self, st, env):
        self.block(st.body if self.true(self.ev(st.test, env)) else st.orelse, env)

    def st_Assert(self, st, env):
        if not self.true(self.ev(st.test, env)):
            raise Raised(AssertionError())

    def st_While(self, st, env):
        while self.true(self.ev(st.test, env)):
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("too many steps")
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                pass
        self.block(st.orelse, env)

    def st_For(self, st, env):
        for x in self.iterate(self.ev(st.iter, env), st):
            self.assign(st.target, x, env)
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                pass
        self.block(st.orelse, env)

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "current", None)
            if cur is None:
                raise Undecided("bare raise")
            raise Raised(cur)
        v = self.ev(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        elif isinstance(v, Class):
            v = self.new(v, [], {})
        raise Raised(v)

    def st_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except Raised as r:
                for h in st.handlers:
                    if h.type is None or self.matches(r.value, self.ev(h.type, env)):
                        before = getattr(self, "current", None)
                        self.current = r.value
                        try:
                            if h.name:
                                self.assign_name(h.name, r.value, env)
                            self.block(h.body, env)
                        finally:
                            self.current = before
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            # a return in the last block replaces what is on its way
            self.block(st.finalbody, env)

    def matches(self, v, t):
        if isinstance(t, (tuple, list)):
            return any(self.matches(v, x) for x in t)
        if isinstance(v, Obj):
            if isinstance(t, Class):
                return t in v.cls.mro()
            return any(isinstance(b, type) and issubclass(b, t) for b in v.cls.mro()) if isinstance(t, type) else self.unknown("except")
        if isinstance(t, type):
            return isinstance(v, t)
        if isinstance(t, Class):
            return False
        raise Undecided("except")

    def unknown(self, what):
        raise Undecided(what)

    def st_With(self, st, env):
        self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self.with_items(items[1:], body, env)
        self.with_(self.ev(it.context_expr, env), inner)

    def with_(self, cm, body):
        """Run body(value) in a context."""
        if isinstance(cm, Managed):
            state = {"n": 0, "signal": None}

            def hook(v):
                state["n"] += 1
                if state["n"] > 1:
                    raise Raised(RuntimeError("generator didn't stop"))
                try:
                    body(v)
                except Signal as s:
                    state["signal"] = s
            cm.call(hook)
            if not state["n"]:
                raise Raised(RuntimeError("generator didn't yield"))
            if state["signal"] is not None:
                raise state["signal"]
            return
        if isinstance(cm, Obj):
            enter, leave = cm.cls.find("__enter__"), cm.cls.find("__exit__")
            if enter is None or leave is None:
                raise Raised(TypeError("not a context manager"))
            v = self.call(enter, [cm], {})
            leave = Bound(cm, leave)
        elif isinstance(cm, Model) and "__enter__" in cm.API:
            v = self.native(cm.__enter__, [], {})
            leave = cm.__exit__
        else:
            raise Undecided(f"with {cm!r}")
        try:
            body(v)
        except Raised as r:
            before = getattr(self, "current", None)
            self.current = r.value
            try:
                hide = self.call(leave, [type(r.value) if not isinstance(r.value, Obj) else r.value.cls, r.value, None], {})
            finally:
                self.current = before
            if not self.true(hide):
                raise
        except Signal:
            self.call(leave, [None, None, None], {})
            raise
        else:
            self.call(leave, [None, None, None], {})

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(xs) < i + k:
                    raise Raised(ValueError("not enough values to unpack"))
                xs = [*xs[:i], xs[i:len(xs) - k], *xs[len(xs) - k:]]
            if len(xs) != len(t.elts):
                raise Raised(ValueError("wrong number of values to unpack"))
            for y, x in zip(t.elts, xs):
                self.assign(y.value if isinstance(y, ast.Starred) else y, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Undecided("assignment")

    def assign_name(self, name, v, env):
        if name in env.globals:
            while env.parent is not None:
                env = env.parent
        elif name in env.nonlocals:
            env = env.parent
            while env is not None and name not in env.vars:
                env = env.parent
            if env is None:
                raise Undecided("nonlocal")
        env.vars[name] = v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p = o.cls.find(name)
            if isinstance(p, Property) or o.cls.find("__setattr__") is not None:
                raise Undecided("setter")
            o.attrs[name] = v
        elif isinstance(o, Class):
            o.attrs[name] = v
        elif isinstance(o, Env):
            o.vars[name] = v
        elif isinstance(o, Func):
            pass
        else:
            raise Undecided(f"setting .{name} of {o!r}")

    def setitem(self, o, k, v):
        if isinstance(o, (list, dict)):
            self.native(o.__setitem__, [k, v], {})
        elif isinstance(o, Model) and "__setitem__" in o.API:
            self.native(o.__setitem__, [k, v], {})
        else:
            raise Undecided(f"item of {o!r}")

    # --------------------------------------------------------- expressions
    def true(self, v):
        if isinstance(v, Obj):
            for n in ("__bool__", "__len__"):
                m = v.cls.find(n)
                if m is not None:
                    return self.true(self.call(m, [v], {}))
            return True
        if isinstance(v, Opaque):
            raise Undecided(f"truth of {v!r}")
        return bool(v)

    def iterate(self, v, st=None):
        if isinstance(v, Obj):
            m = v.cls.find("__iter__")
            if m is None:
                raise Undecided("iteration")
            return self.iterate(self.call(m, [v], {}))
        if isinstance(v, Model):
            if "__iter__" in v.API:
                return list(v)
            raise Undecided(f"iteration over {v!r}")
        if isinstance(v, (Opaque, Func, Class, Env)):
            raise Undecided("iteration")
        try:
            return iter(v)
        except TypeError as ex:
            raise Raised(ex) from None

    def ev(self, e, env):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Undecided(type(e).__name__)
        return m(e, env)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        x = env
        if e.id not in env.globals:
            while x is not None and x.parent is not None:
                if e.id in x.vars:
                    return x.vars[e.id]
                x = x.parent
        try:
            return self.glob(env, e.id)
        except KeyError:
            pass
        return self.builtin(e.id, env)

    def builtin(self, name, env):
        if name == "super":
            return Builtin(lambda it, args, kw: it.super(env, args))
        b = BUILTINS.get(name)
        if b is not None:
            return b
        v = getattr(builtins, name, None)
        if isinstance(v, type) and issubclass(v, BaseException):
            return v
        if name in ("NotImplemented", "Ellipsis", "object"):
            return v
        if name in NAMES:
            raise Undecided(name)
        raise Raised(NameError(name))

    def super(self, env, args):
        if args:
            return Super(args[1], args[0])
        while env is not None and (env.func is None or env.func.cls is None):
            env = env.parent
        if env is None:
            raise Undecided("super")
        return Super(env.first, env.func.cls)

    def ex_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)

    def attr(self, o, name):
        if isinstance(o, Env):
            try:
                return self.glob(o, name)
            except KeyError:
                raise Undecided(f"module attribute {name}") from None
        if isinstance(o, Super):
            m = o.obj.cls.find(name, skip=o.cls)
            if m is None:
                if name == "__init__":
                    return Builtin(lambda it, a, k: None)
                raise Undecided(f"super().{name}")
            return Bound(o.obj, m)
        if isinstance(o, Obj):
            c = o.cls.find(name)
            if isinstance(c, Property):
                return self.call(c.func, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if c is not None:
                return c.func if type(c) is Static else Bound(o.cls, c.func) if isinstance(c, ClassMethod) else Bound(o, c) if isinstance(c, Func) else c
            g = o.cls.find("__getattr__")
            if g is not None:
                return self.call(g, [o, name], {})
            raise Raised(AttributeError(name))
        if isinstance(o, Class):
            c = o.find(name)
            if c is None:
                if name == "__name__":
                    return o.name
                raise Undecided(f"{o.name}.{name}")
            return c.func if type(c) is Static else Bound(o, c.func) if isinstance(c, ClassMethod) else c
        if isinstance(o, Model):
            if name in o.API:
                return getattr(o, name)
            raise Undecided(f"{o!r}.{name}")
        if isinstance(o, Opaque):
            return Opaque(f"{o.what}.{name}")
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            raise Undecided(name)
        if isinstance(o, PLAIN):
            if name.startswith("__") and name not in ("__len__", "__getitem__", "__contains__"):
                raise Undecided(name)
            if not hasattr(o, name):
                raise Raised(AttributeError(name))
            f = getattr(o, name)
            if isinstance(o, list) and name == "sort":
                raise Undecided("sort")
            return Builtin(lambda it, a, k: it.native(f, [list(it.iterate(x)) if isinstance(x, Iterator) else x for x in a], k)) if callable(f) else f
        if isinstance(o, BaseException) and hasattr(o, name):
            return getattr(o, name)
        raise Undecided(f"{o!r}.{name}")

    def ex_Subscript(self, e, env):
        return self.item(self.ev(e.value, env), self.ev(e.slice, env))

    def ex_Slice(self, e, env):
        return slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])

    def item(self, o, k):
        if isinstance(o, Obj):
            m = o.cls.find("__getitem__")
            if m is None:
                raise Raised(TypeError("not subscriptable"))
            return self.call(m, [o, k], {})
        if isinstance(o, Model):
            if "__getitem__" not in o.API:
                raise Undecided(f"{o!r}[...]")
            return self.native(o.__getitem__, [k], {})
        if isinstance(o, (Opaque, Class)):
            return Opaque("item")
        try:
            return o[k]
        except (KeyError, IndexError) as ex:
            raise Raised(ex) from None
        except TypeError as ex:
            raise Undecided(str(ex)) from None

    def ex_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Undecided("**")
                for n, x in v.items():
                    if n in kwargs:
                        raise Raised(TypeError(f"multiple values for {n}"))
                    kwargs[n] = x
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def binop(self, op, a, b):
        if isinstance(a, (Obj, Opaque)) or isinstance(b, (Obj, Opaque)):
            raise Undecided("operator")
        try:
            return BIN[type(op)](a, b)
        except (Raised, Undecided):
            raise
        except ZeroDivisionError as ex:
            raise Raised(ex) from None
        except TypeError as ex:
            if isinstance(a, PLAIN) and isinstance(b, PLAIN):
                raise Raised(ex) from None
            raise Undecided(str(ex)) from None

    def ex_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def ex_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.true(v)
        if isinstance(v, (Obj, Opaque)):
            raise Undecided("operator")
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)

    def ex_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            if self.true(v) is isinstance(e.op, ast.Or):
                return v
        return v

    def ex_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            if not self.true(self.compare(op, a, b)):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Obj):
                m = b.cls.find("__contains__")
                r = self.true(self.call(m, [b, a], {})) if m is not None else any(x is a or self.true(self.compare(ast.Eq(), x, a)) for x in self.iterate(b))
            elif isinstance(b, Model):
                if "__contains__" not in b.API:
                    raise Undecided(f"in {b!r}")
                r = b.__contains__(a)
            elif isinstance(b, Opaque):
                raise Undecided("in")
            elif isinstance(b, Iterator):
                r = a in list(b)
            else:
                r = a in b
            return r is isinstance(op, ast.In)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if None in (a, b):
                    return isinstance(op, ast.IsNot)
                raise Undecided("is")
            return CMP[type(op)](a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided("comparison")
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(op, (ast.Eq, ast.NotEq)) and not any(isinstance(x, Obj) and x.cls.find("__eq__") for x in (a, b)) and not (isinstance(a, Obj) and a.cls.fields is not None):
                return (a is b) is isinstance(op, ast.Eq)
            raise Undecided("comparison")
        try:
            return CMP[type(op)](a, b)
        except TypeError as ex:
            raise Raised(ex) from None

    def ex_IfExp(self, e, env):
        return self.ev(e.body if self.true(self.ev(e.test, env)) else e.orelse, env)

    def sequence(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ex_Tuple(self, e, env):
        return tuple(self.sequence(e.elts, env))

    def ex_List(self, e, env):
        return self.sequence(e.elts, env)

    def ex_Set(self, e, env):
        return set(self.sequence(e.elts, env))

    def ex_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, env)
                if not isinstance(d, dict):
                    raise Undecided("**")
                out.update(d)
            else:
                out[self.ev(k, env)] = self.ev(v, env)
        return out

    def ex_JoinedStr(self, e, env):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, env)
                out += format(x) if isinstance(x, (str, int, float)) and v.format_spec is None else "?"
        return out

    def ex_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        x = env
        while "__comprehension__" in x.vars:
            x = x.parent
        self.assign(e.target, v, x)
        return v

    def ex_Lambda(self, e, env):
        return Func(e, self.enclosing(env), "lambda", env.module)

    def ex_Starred(self, e, env):
        raise Undecided("star")

    def comprehension(self, gens, env, put):
        def go(k, en):
            if k == len(gens):
                put(en)
                return
            g = gens[k]
            for x in self.iterate(self.ev(g.iter, en)):
                sub = Env(en, hook=en.hook)
                sub.vars["__comprehension__"] = True
                self.assign(g.target, x, sub)
                if all(self.true(self.ev(c, sub)) for c in g.ifs):
                    go(k + 1, sub)
        go(0, env)

    def ex_ListComp(self, e, env):
        out = []
        self.comprehension(e.generators, env, lambda en: out.append(self.ev(e.elt, en)))
        return out

    def ex_GeneratorExp(self, e, env):
        return Iterator(self.ex_ListComp(e, env))

    def ex_SetComp(self, e, env):
        return set(self.ex_ListComp(e, env))

    def ex_DictComp(self, e, env):
        out = {}
        self.comprehension(e.generators, env, lambda en: out.__setitem__(self.ev(e.key, en), self.ev(e.value, en)))
        return out

    def hook(self, env):
        while env is not None and env.hook is None:
            if env.func is not None:
                break
            env = env.parent
        if env is None or env.hook is None:
            raise Undecided("yield")
        return env.hook

    def ex_Yield(self, e, env):
        self.hook(env)(self.ev(e.value, env) if e.value is not None else None)

    def ex_YieldFrom(self, e, env):
        h = self.hook(env)
        if isinstance(e.value, ast.Call):
            f = self.ev(e.value.func, env)
            if isinstance(f, Func) and f.generator and not f.manager and not any(isinstance(a, ast.Starred) for a in e.value.args) and all(k.arg for k in e.value.keywords):
                return self.run(f, [self.ev(a, env) for a in e.value.args], {k.arg: self.ev(k.value, env) for k in e.value.keywords}, hook=h)
        for x in self.iterate(self.ev(e.value, env)):
            h(x)


class Builtin:
    def __init__(self, fn):
        self.fn = fn


class Factory:
    def __init__(self, factory):
        self.factory = factory


def plain(name):
    """Built-in functions on plain values and models with these operators."""
    f = getattr(builtins, name)

    def run(it, args, kw):
        xs = [list(it.iterate(a)) if isinstance(a, (Iterator, Obj)) and name not in ("iter",) else a for a in args]
        if any(isinstance(a, (Opaque, Obj, Func, Class)) for a in xs):
            raise Undecided(name)
        if name in ("list", "tuple", "set", "sorted", "enumerate", "zip", "reversed", "sum", "any", "all", "min", "max"):
            xs = [list(it.iterate(a)) if isinstance(a, Model) else a for a in xs]
        if "key" in kw:
            key = kw.pop("key")
            kw["key"] = lambda x: it.call(key, [x], {})
        try:
            r = f(*xs, **kw)
        except (Raised, Undecided):
            raise
        except (TypeError, ValueError, StopIteration) as ex:
            raise Raised(ex) from None
        return list(r) if name in ("zip", "enumerate", "reversed") else r
    return Builtin(run)


def b_isinstance(it, args, kw):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, Builtin):
            x = TYPES.get(x)
        if isinstance(x, Class):
            if isinstance(v, Obj) and x in v.cls.mro():
                return True
        elif isinstance(x, type):
            if isinstance(v, Obj):
                if any(isinstance(b, type) and issubclass(b, x) for b in v.cls.mro()):
                    return True
            elif not isinstance(v, PLAIN) and not isinstance(v, BaseException):
                kind = getattr(v, "KIND", None)
                if kind is None:
                    raise Undecided("isinstance")
                if issubclass(kind, x):
                    return True
            elif isinstance(v, x):
                return True
        elif isinstance(x, Opaque) or x is None:
            kinds = getattr(v, "KINDS", None)
            if isinstance(v, PLAIN) and isinstance(x, Opaque) and x.what.startswith(("numpy.", "fitsio.")):
                continue
            if kinds is None or x is None:
                raise Undecided("isinstance")
            if x.what in kinds:
                return True
        else:
            raise Undecided("isinstance")
    return False


def b_len(it, args, kw):
    x = args[0]
    if isinstance(x, Obj):
        m = x.cls.find("__len__")
        if m is None:
            raise Raised(TypeError("no len"))
        return it.call(m, [x], {})
    if isinstance(x, Model):
        if "__len__" not in x.API:
            raise Undecided("len")
        return x.length()
    try:
        return len(x)
    except TypeError as ex:
        raise Raised(ex) from None


def b_getattr(it, args, kw):
    try:
        return it.attr(args[0], args[1])
    except Raised as r:
        if isinstance(r.value, AttributeError) and len(args) == 3:
            return args[2]
        raise


def b_hasattr(it, args, kw):
    try:
        it.attr(args[0], args[1])
    except Raised as r:
        if isinstance(r.value, AttributeError):
            return False
        raise
    return True


def b_next(it, args, kw):
    x = args[0]
    if isinstance(x, Iterator):
        x = x.xs
    try:
        return next(x)
    except StopIteration as ex:
        if len(args) > 1:
            return args[1]
        raise Raised(ex) from None
    except TypeError as ex:
        raise Raised(ex) from None


def b_map(it, args, kw):
    return [it.call(args[0], list(xs), {}) for xs in zip(*[list(it.iterate(a)) for a in args[1:]])]


def b_filter(it, args, kw):
    return [x for x in it.iterate(args[1]) if it.true(x if args[0] is None else it.call(args[0], [x], {}))]


def b_type(it, args, kw):
    x = args[0]
    if len(args) == 1 and isinstance(x, Obj):
        return x.cls
    raise Undecided("type")


def decorator(fn):
    return Builtin(lambda it, args, kw: fn(args[0]))


def b_callable(it, args, kw):
    x = args[0]
    return isinstance(x, (Func, Bound, Class, Builtin)) or isinstance(x, type) or isinstance(x, Obj) and x.cls.find("__call__") is not None


BUILTINS = {n: plain(n) for n in ("list", "tuple", "dict", "set", "frozenset", "range", "enumerate", "zip", "sorted", "reversed", "min", "max", "sum", "any", "all", "abs",
                                  "int", "float", "str", "bool", "slice", "divmod", "round", "repr")}
BUILTINS |= {"isinstance": Builtin(b_isinstance), "len": Builtin(b_len), "getattr": Builtin(b_getattr), "hasattr": Builtin(b_hasattr), "next": Builtin(b_next),
             "map": Builtin(b_map), "filter": Builtin(b_filter), "iter": Builtin(lambda it, a, k: Iterator(it.iterate(a[0]))), "type": Builtin(b_type),
             "setattr": Builtin(lambda it, a, k: it.setattr(*a)), "print": Builtin(lambda it, a, k: None), "callable": Builtin(b_callable),
             "property": decorator(Property), "staticmethod": decorator(Static), "classmethod": decorator(ClassMethod)}
TYPES = {BUILTINS[n]: getattr(builtins, n) for n in ("list", "tuple", "dict", "set", "frozenset", "int", "float", "str", "bool", "slice", "range")}


def contextmanager(it, args, kw):
    f = args[0]
    if not isinstance(f, Func) or not f.generator:
        raise Undecided("contextmanager")
    f.manager = True
    return f


def dataclass(it, args, kw):
    def mark(c):
        own = [(n, d or n in c.attrs) for n, d in c.annotations]
        c.fields = [x for b in reversed(c.mro()[1:]) if isinstance(b, Class) and b.fields for x in b.fields] + own
        return c
    if args:
        return mark(args[0])
    return Builtin(lambda it, a, k: mark(a[0]))


class Namespace(Model):
    """A module of which some names are modelled."""

    def __init__(self, name, **names):
        self.name = name
        self.__dict__.update(names)
        self.API = tuple(names)

    def __repr__(self):
        return self.name


class Stack(Model):
    """contextlib.ExitStack"""
    API = ("__enter__", "__exit__", "enter_context", "callback", "push", "close", "pop_all")

    def __init__(self, it):
        self.it = it
        self.todo = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        it = self.it
        if isinstance(cm, Model) and "__enter__" in cm.API:
            v = it.native(cm.__enter__, [], {})
            self.todo.append(cm.__exit__)
            return v
        if isinstance(cm, Obj):
            v = it.call(cm.cls.find("__enter__"), [cm], {})
            self.todo.append(Bound(cm, cm.cls.find("__exit__")))
            return v
        raise Undecided("enter_context")

    def callback(self, f, *args, **kw):
        self.todo.append(Builtin(lambda it, a, k: it.call(f, list(args), kw) and None))
        return f

    def push(self, f):
        if isinstance(f, Model) and "__exit__" in f.API:
            f = f.__exit__
        elif isinstance(f, Obj):
            f = Bound(f, f.cls.find("__exit__"))
        self.todo.append(f)
        return f

    def close(self):
        self.__exit__(None, None, None)

    def pop_all(self):
        s = Stack(self.it)
        s.todo, self.todo = self.todo, []
        return s

    def __exit__(self, t, v, tb):
        cur = v
        hidden = False
        while self.todo:
            f = self.todo.pop()
            try:
                if self.it.true(self.it.call(f, [None if cur is None else type(cur), cur, None], {})):
                    cur, hidden = None, True
            except Raised as r:
                cur = r.value
        if cur is not None and cur is not v:
            raise Raised(cur)
        return hidden and v is not None


class Suppress(Model):
    API = ("__enter__", "__exit__")

    def __init__(self, it, types):
        self.it, self.types = it, types

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return v is not None and self.it.matches(v, tuple(self.types))


class Closing(Model):
    API = ("__enter__", "__exit__")

    def __init__(self, it, x, close=True):
        self.it, self.x, self.close = it, x, close

    def __enter__(self):
        return self.x

    def __exit__(self, t, v, tb):
        if self.close:
            self.it.call(self.it.attr(self.x, "close"), [], {})
        return False


class AbstractManager(Class):
    def __init__(self):
        super().__init__("AbstractContextManager", {"__enter__": Builtin(lambda it, a, k: a[0]), "__exit__": Builtin(lambda it, a, k: None)}, [])


def standard():
    """Modules of the standard library."""
    cm = Builtin(contextmanager)
    return {
        "contextlib": Namespace("contextlib", contextmanager=cm, ExitStack=Builtin(lambda it, a, k: Stack(it)), suppress=Builtin(lambda it, a, k: Suppress(it, a)),
                                closing=Builtin(lambda it, a, k: Closing(it, a[0])), nullcontext=Builtin(lambda it, a, k: Closing(it, a[0] if a else None, close=False)),
                                AbstractContextManager=AbstractManager(), ContextDecorator=Class("ContextDecorator", {}, [])),
        "dataclasses": Namespace("dataclasses", dataclass=Builtin(dataclass),
                                 field=Builtin(lambda it, a, k: Factory(k["default_factory"]) if "default_factory" in k else k.get("default"))),
        "typing": Namespace("typing", TYPE_CHECKING=False, cast=Builtin(lambda it, a, k: a[1]), NamedTuple=Opaque("typing.NamedTuple"), Any=Opaque("typing.Any"),
                            Protocol=Opaque("typing.Protocol"), Generic=Opaque("typing.Generic"), overload=decorator(lambda f: f), Self=Opaque("typing.Self")),
        "itertools": Namespace("itertools", accumulate=Builtin(accumulate), chain=Builtin(lambda it, a, k: [y for x in a for y in it.iterate(x)]),
                               pairwise=Builtin(lambda it, a, k: (lambda xs: list(zip(xs, xs[1:])))(list(it.iterate(a[0])))),
                               count=Builtin(lambda it, a, k: it.unknown("count")),
                               islice=Builtin(lambda it, a, k: list(it.iterate(a[0]))[slice(*a[1:])])),
        "functools": Namespace("functools", wraps=Builtin(lambda it, a, k: decorator(lambda f: f)),
                               partial=Builtin(lambda it, a, k: Builtin(lambda it2, b, k2: it2.call(a[0], [*a[1:], *b], {**k, **k2})))),
        "operator": Namespace("operator", add=Builtin(lambda it, a, k: a[0] + a[1]), itemgetter=Builtin(lambda it, a, k: it.unknown("itemgetter"))),
    }


def accumulate(it, args, kw):
    xs = list(it.iterate(args[0]))
    f = args[1] if len(args) > 1 else kw.get("func")
    out = []
    if kw.get("initial") is not None:
        xs = [kw["initial"], *xs]
    for x in xs:
        out.append(x if not out else out[-1] + x if f is None else it.call(f, [out[-1], x], {}))
    return out
