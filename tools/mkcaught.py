"""Which checks report which planted bug: writes caught.json (runs every check on a scratch copy with each patch)."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
ids = [c["property"] for c in json.loads((V / "MANIFEST.json").read_text())["checks"]]
f = V / "tools/caught.json"
old = json.loads(f.read_text()) if f.exists() else {}
names = sys.argv[1:] or [p.parent.name for p in sorted((V / "seeded").glob("*/patch.diff"))]
def one(name):
    d = pathlib.Path(tempfile.mkdtemp())
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(d / "r")], check=True)
        subprocess.run(["git", "-C", str(d / "r"), "apply", str(V / "seeded" / name / "patch.diff")], check=True)
        shutil.copytree(V / "glasscheck", d / "v/glasscheck", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(V / "known_findings.txt", d / "v")
        got = []
        for i in ids:
            r = subprocess.run([sys.executable, "-m", "glasscheck", i], cwd=d / "v", env={**os.environ, "GLASSCHECK_REPO": str(d / "r")}, capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={i} " in r.stdout:
                got.append(i)
            elif r.returncode:
                print(name, i, "exit", r.returncode, r.stderr[-300:])
        return name, got
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for n, g in ex.map(one, names):
        old[n] = g
        print(n, g)
f.write_text(json.dumps({k: old[k] for k in sorted(old) if (V / "seeded" / k).exists()}, indent=1) + "\n")
