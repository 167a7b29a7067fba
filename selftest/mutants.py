"""Generated mutants of glass: which of them does some check report?

usage: python3 selftest/mutants.py COUNT SEED [FILE…]  -- a random sample of small changes to the syntax tree
"""
import ast, json, os, pathlib, random, shutil, subprocess, sys, tempfile
from collections import Counter, defaultdict
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent
ROOT = pathlib.Path(os.environ.get("GC_FROM", HERE.parent))
REPO = pathlib.Path("/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//", ast.FloorDiv: "/", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}


def sites(path):
    text = (REPO / path).read_text()
    tree = ast.parse(text)
    starts = [0]
    for line in text.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    raw = text.encode()
    at = lambda l, c: starts[l - 1] + c
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    src = lambda n: raw[slice(*span(n))].decode()
    out = []

    def add(kind, n, new, where=None):
        a, b = where or span(n)
        out.append((path, kind, n.lineno, a, b, new))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in [*n.args.defaults, *[k for k in n.args.kw_defaults if k]]:
                if isinstance(d, ast.Constant) and not isinstance(d.value, str) and d.value is not None and d.value is not Ellipsis:
                    add("default", d, repr(not d.value) if isinstance(d.value, bool) else repr(d.value + 1))
            if any(isinstance(d, ast.Name) and d.id == "overload" for d in n.decorator_list):
                return
            for b in n.body:
                visit(b, n.name)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.body:
                visit(b, fn)
            return
        if fn is None:
            return
        if isinstance(n, ast.If) and src(n.test) == "TYPE_CHECKING":
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            add("drop statement", n, "pass")
        if isinstance(n, ast.AugAssign):
            add("drop statement", n, "pass")
            a, b = span(n.target)[1], span(n.value)[0]
            if type(n.op) in BIN:
                add("operator", n, " " + BIN[type(n.op)] + "= ", (a, b))
        if isinstance(n, ast.Raise):
            add("drop raise", n, "pass")
            return
        if isinstance(n, (ast.AnnAssign,)):
            if n.value is not None:
                visit(n.value, fn)
            return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("condition", n.test, f"not ({src(n.test)})")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            if b"(" not in raw[a:b] and b")" not in raw[a:b]:
                add("comparison", n, " " + CMP[type(n.ops[0])] + " ", (a, b))
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            add("boolean", n, src(n.values[0]))
            add("boolean", n, src(n.values[-1]))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            add("operator", n, mid.replace(OPS[type(n.op)], BIN[type(n.op)], 1), (a, b))
            if random.random() < 0.4:
                add("operand", n, f"({src(n.left)})")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add("sign", n, f"({src(n.operand)})")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add("constant", n, repr(not v))
            elif isinstance(v, int):
                add("constant", n, repr(v + 1))
            elif isinstance(v, float):
                add("constant", n, repr(v * 2 if v else 1.0))
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    a, b = span(k)
                    # the comma before it
                    j = a
                    while raw[j - 1:j] in (b" ", b"\n"):
                        j -= 1
                    if raw[j - 1:j] == b",":
                        add("drop argument", n, "", (j - 1, b))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]) and src(n.args[0]) != src(n.args[1]):
                a, b = span(n.args[0])
                c, d = span(n.args[1])
                add("swap arguments", n, src(n.args[1]) + raw[b:c].decode() + src(n.args[0]), (a, d))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute) and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                add("drop call", n, f"({src(n.args[0])})")
            if isinstance(n.func, ast.Name) and n.func.id in ("TypeError", "ValueError", "cast"):
                return
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for e in (n.slice.lower, n.slice.upper):
                if e is not None:
                    add("slice", e, f"({src(e)}) + 1")
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    for n in tree.body:
        visit(n, None)
    return text, raw, out


def order(path):
    """Checks, those with variants in the file first."""
    sys.path.insert(0, str(HERE))
    import variants
    n = Counter(v[0] for v in variants.VARIANTS if v[0] and v[1] == path)
    ps = sorted({v[0] for v in variants.VARIANTS if v[0]})
    return sorted(ps, key=lambda p: (-n[p], p))


def run(m, raw, orders):
    path, kind, line, a, b, new = m
    changed = raw[:a] + new.encode() + raw[b:]
    try:
        ast.parse(changed)
    except SyntaxError:
        return None
    d = pathlib.Path(tempfile.mkdtemp(prefix="gm_"))
    try:
        shutil.copytree(REPO / "glass", d / "glass", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(REPO / "pyproject.toml", d)
        (d / path).write_bytes(changed)
        ev = d / "v"
        shutil.copytree(ROOT / "glasscheck", ev / "glasscheck", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(HERE.parent / "known_findings.txt", ev)
        for p in orders[path]:
            r = subprocess.run([sys.executable, "-m", "glasscheck", p], cwd=ev, capture_output=True, text=True, env={**os.environ, "GLASSCHECK_REPO": str(d)})
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return p, ""
            if r.returncode != 0:
                return "ERROR " + p, r.stderr[-300:]
        return "", ""
    finally:
        shutil.rmtree(d)


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(str(p.relative_to(REPO)) for p in (REPO / "glass").rglob("*.py") if p.name not in ("_version.py", "_types.py", "cosmology.py"))
    random.seed(seed)
    every, raws, orders = [], {}, {}
    for f in files:
        text, raws[f], ms = sites(f)
        orders[f] = order(f)
        every += ms
    print(len(every), "possible", flush=True)
    random.shuffle(every)
    pick = every[:count]
    caught = defaultdict(Counter)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for m, r in zip(pick, ex.map(lambda m: run(m, raws[m[0]], orders), pick)):
            if r is None:
                continue
            path, kind, line, a, b, new = m
            raw = raws[path]
            caught[path][bool(r[0])] += 1
            if not r[0] or r[0].startswith("ERROR"):
                l0 = raw.rfind(b"\n", 0, a) + 1
                l1 = raw.find(b"\n", b)
                was = raw[l0:l1].decode().strip()
                now = (raw[l0:a] + new.encode() + raw[b:l1]).decode().strip()
                print(f"{r[0] or 'MISSED'} {path}:{line} [{kind}]\n    - {was[:150]!r}\n    + {now[:150]!r} {r[1]}", flush=True)
    for f, c in sorted(caught.items()):
        print(f, c[True], "of", c[True] + c[False])
    print("total", sum(c[True] for c in caught.values()), "of", sum(sum(c.values()) for c in caught.values()))


if __name__ == "__main__":
    main()
