"""Development aid: run checks on textual variants of the source (never used by a check).

usage: run.py [PID ...]   -- variants are listed in variants.py as
(property or None for behaviour-preserving edits, file, old, new)
"""
import os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent
VERIF = pathlib.Path(os.environ.get("GC_FROM", HERE.parent))
sys.path.insert(0, str(HERE))
import variants


def run(k):
    v = variants.VARIANTS[k]
    pid, file = v[0], v[1]
    d = pathlib.Path(tempfile.mkdtemp(prefix="gc_"))
    try:
        shutil.copytree("/repo/glass", d / "glass")
        shutil.copy("/repo/pyproject.toml", d)
        f = d / file
        s = f.read_text()
        for old, new in zip(v[2::2], v[3::2]):
            if s.count(old) < 1:
                return k, f"TEXT NOT FOUND: {old[:60]!r}"
            s = s.replace(old, new)
        f.write_text(s)
        ev = d / "v"
        shutil.copytree(VERIF / "glasscheck", ev / "glasscheck", ignore=shutil.ignore_patterns("__pycache__"))
        if (VERIF / "known_findings.txt").exists():
            shutil.copy(VERIF / "known_findings.txt", ev)
        ids = [pid] if pid else [p.stem.upper() for p in sorted((VERIF / "glasscheck/checks").glob("[cn][0-9][0-9].py"))]
        r = subprocess.run([sys.executable, "-m", "glasscheck", *ids], cwd=ev, capture_output=True, text=True,
                           env={**os.environ, "GLASSCHECK_REPO": str(d)})
        viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        det = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        if pid:
            return k, ("caught   " + det[0][:150] if viol else f"MISSED   rc={r.returncode} {r.stderr[-200:]}")
        return k, ("quiet" if not viol and r.returncode == 0 else f"FALSE ALARM rc={r.returncode} {det[:3]} {r.stderr[-300:]}")
    finally:
        shutil.rmtree(d)


sel = [i for i, v in enumerate(variants.VARIANTS) if len(sys.argv) < 2 or (v[0] or "NONE") in sys.argv[1:]]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for k, r in ex.map(run, sel):
        v = variants.VARIANTS[k]
        flag = r.startswith(("caught", "quiet"))
        bad += not flag
        print(f"{'ok ' if flag else '!! '} {v[0] or 'same'} {v[1]} {v[3].strip()[:50]!r}: {r}")
print(f"{len(sel)} variants, {bad} unexpected")
