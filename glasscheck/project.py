"""Source model of the package: modules, definitions, imports."""

from __future__ import annotations

import ast
import hashlib
import os
import pathlib

REPO = pathlib.Path(os.environ.get("GLASSCHECK_REPO", "/repo"))


class AnalysisBroken(Exception):
    """The analysis cannot be carried out on this tree (a vanished anchor)."""


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.src = path.read_text()
        self.tree = ast.parse(self.src, str(path))
        self.is_pkg = path.name == "__init__.py"
        self.bind = {}      # name -> binding at run time
        self.tc_bind = {}   # name -> binding only under TYPE_CHECKING
        self.rel = str(path.relative_to(REPO))
        self._collect(self.tree.body, self.bind)

    def pkg(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def _collect(self, body, out):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if is_overload(st):
                    continue
                out[st.name] = ("def", st)
            elif isinstance(st, ast.ClassDef):
                out[st.name] = ("class", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        out[a.asname] = ("mod", a.name)
                    else:
                        out[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    p = self.pkg().split(".")
                    p = p[: len(p) - (st.level - 1)]
                    base = ".".join(p + ([base] if base else []))
                for a in st.names:
                    out[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = ("assign", st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                        for x, v in zip(t.elts, st.value.elts):
                            if isinstance(x, ast.Name):
                                out[x.id] = ("assign", v)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    out[st.target.id] = ("assign", st.value)
            elif isinstance(st, ast.If):
                if is_type_checking(st.test):
                    self._collect(st.body, self.tc_bind)
                    self._collect(st.orelse, out)
                else:
                    self._collect(st.body, out)
                    self._collect(st.orelse, out)
            elif isinstance(st, ast.Try):
                for b in (st.body, *[h.body for h in st.handlers], st.orelse, st.finalbody):
                    self._collect(b, out)
            elif isinstance(st, ast.With):
                self._collect(st.body, out)


def is_type_checking(test):
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (
        isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING")


def is_overload(fn):
    for d in fn.decorator_list:
        n = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None
        if n == "overload":
            return True
    return False


class Project:
    def __init__(self, root=None):
        self.root = pathlib.Path(root) if root else REPO
        self.modules = {}
        base = self.root / "glass"
        if not base.is_dir():
            raise AnalysisBroken("package directory glass/ not found")
        for p in sorted(base.rglob("*.py")):
            rel = p.relative_to(self.root).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts.pop()
            try:
                m = Module(".".join(parts), p)
            except SyntaxError as e:
                raise AnalysisBroken(f"cannot parse {p}: {e}") from e
            self.modules[m.name] = m
        self.digest = hashlib.sha256(
            b"".join(m.name.encode() + m.src.encode() for m in self.modules.values())).hexdigest()[:16]

    def inject(self, name, path):
        """Add a reference module of the verifier; it is never part of the analysed package."""
        m = Module.__new__(Module)
        m.name, m.path = name, path
        m.src = path.read_text()
        m.tree = ast.parse(m.src, str(path))
        m.is_pkg = False
        m.bind, m.tc_bind = {}, {}
        m.rel = f"specs/{path.name}"
        m._collect(m.tree.body, m.bind)
        self.modules[name] = m
        return m

    def resolve(self, modname, name, tc=False, depth=0):
        """Resolve a global name of a module.

        Returns ("def", module, ast), ("class", module, ast), ("mod", dotted),
        ("ext", dotted), ("assign", module, expr) or None.
        """
        m = self.modules.get(modname)
        if m is None or depth > 20:
            return None
        b = m.bind.get(name)
        if b is None and tc:
            b = m.tc_bind.get(name)
        if b is None:
            sub = f"{modname}.{name}"
            if sub in self.modules:
                return ("mod", sub)
            return None
        if b[0] == "def":
            return ("def", modname, b[1])
        if b[0] == "class":
            return ("class", modname, b[1])
        if b[0] == "assign":
            return ("assign", modname, b[1])
        if b[0] == "mod":
            return ("mod", b[1]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            _, base, attr = b
            if base in self.modules:
                r = None
                if not (base == modname and attr == name):
                    r = self.resolve(base, attr, tc, depth + 1)
                if r is None and f"{base}.{attr}" in self.modules:
                    r = ("mod", f"{base}.{attr}")
                return r
            return ("ext", f"{base}.{attr}")
        return None

    def find_func(self, qual):
        """module:func or module:Class.func -> (module, classdef|None, funcdef)."""
        mod, _, path = qual.partition(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = path.split(".")
        b = m.bind.get(parts[0])
        if b is None:
            return None
        if b[0] == "from":
            r = self.resolve(mod, parts[0])
            if r and r[0] in ("def", "class"):
                return self.find_func(f"{r[1]}:{path}")
            return None
        if len(parts) == 1:
            return (m, None, b[1]) if b[0] == "def" else None
        if b[0] != "class":
            return None
        for st in b[1].body:
            if isinstance(st, ast.FunctionDef) and st.name == parts[1] and not is_overload(st):
                return (m, b[1], st)
        return None

    def public_names(self):
        m = self.modules.get("glass")
        if m is None:
            raise AnalysisBroken("module glass vanished")
        b = m.bind.get("__all__")
        if b is None or b[0] != "assign" or not isinstance(b[1], (ast.List, ast.Tuple)):
            raise AnalysisBroken("glass.__all__ is not a literal list any more")
        return [e.value for e in b[1].elts if isinstance(e, ast.Constant)]

    def public_entries(self):
        """Qualified names of all public functions and methods."""
        out = []
        for name in self.public_names():
            r = self.resolve("glass", name)
            if r is None:
                out.append((name, None))
            elif r[0] == "def":
                out.append((name, f"{r[1]}:{name}"))
            elif r[0] == "class":
                out.extend(self._class_entries(name, r[1], r[2]))
            elif r[0] == "mod":
                mm = self.modules[r[1]]
                for n2, b in mm.bind.items():
                    if n2.startswith("_"):
                        continue
                    r2 = self.resolve(r[1], n2)
                    if r2 is None or r2[0] not in ("def", "class") or not r2[1].startswith(r[1]):
                        continue
                    if r2[0] == "def":
                        out.append((f"{name}.{n2}", f"{r2[1]}:{r2[2].name}"))
                    else:
                        out.extend(self._class_entries(f"{name}.{n2}", r2[1], r2[2]))
        seen = set()
        res = []
        for n, q in out:
            if q is None or q not in seen:
                seen.add(q)
                res.append((n, q))
        return res

    def _class_entries(self, name, mod, cd):
        out = []
        for st in cd.body:
            if isinstance(st, ast.FunctionDef) and not is_overload(st):
                if st.name.startswith("_") and not (st.name.startswith("__") and st.name.endswith("__")):
                    continue
                out.append((f"{name}.{st.name}", f"{mod}:{cd.name}.{st.name}"))
        return out

    def all_functions(self):
        """(module, classdef|None, funcdef) of every run-time function, nested ones included."""
        for m in self.modules.values():
            if m.name.startswith("spec_"):
                continue

            def walk(body, cls, prefix):
                for st in body:
                    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        if is_overload(st):
                            continue
                        yield (m, cls, st, prefix + st.name)
                        yield from walk(st.body, None, prefix + st.name + ".")
                    elif isinstance(st, ast.ClassDef):
                        yield from walk(st.body, st, prefix + st.name + ".")
                    elif isinstance(st, ast.If) and is_type_checking(st.test):
                        yield from walk(st.orelse, cls, prefix)
                    elif hasattr(st, "body"):
                        for f in ("body", "orelse", "finalbody"):
                            yield from walk(getattr(st, f, []) or [], cls, prefix)
                        for h in getattr(st, "handlers", []):
                            yield from walk(h.body, cls, prefix)
            yield from walk(m.tree.body, None, "")
