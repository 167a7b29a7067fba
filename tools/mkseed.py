"""Development aid: create and confirm planted changes listed in seeds.py.

usage: mkseed.py ID...   builds seeded/ID from seeds.SEEDS, runs the demo with and without the
change and the repository's tests with it, all in scratch copies."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import seeds
OUT = HERE.parent / "seeded"
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "JAX_PLATFORMS": "cpu", "ARRAY_BACKEND": "all", "PYTHONHASHSEED": "0",
       "MPLBACKEND": "Agg", "HOME": "/root"}
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD"\nexec timeout 240 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True)


def one(sid):
    s = seeds.SEEDS[sid]
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed_"))
    try:
        r = d / "repo"
        sh(["cp", "-a", "/repo", str(r)], "/")
        for file, *pairs in s["edits"]:
            f = r / file
            t = f.read_text()
            for old, new in zip(pairs[::2], pairs[1::2]):
                if t.count(old) != 1:
                    return sid, f"TEXT FOUND {t.count(old)} TIMES: {old[:70]!r}"
                t = t.replace(old, new)
            f.write_text(t)
        o = OUT / sid
        o.mkdir(parents=True, exist_ok=True)
        (o / "patch.diff").write_text(sh(["git", "diff"], r).stdout)
        (o / "demo.py").write_text(s["demo"].lstrip())
        (o / "demo.sh").write_text(DEMO)
        os.chmod(o / "demo.sh", 0o755)
        (o / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        a = sh(["bash", str(o / "demo.sh")], "/repo")
        b = sh(["bash", str(o / "demo.sh")], r)
        msg = f"demo unchanged {a.returncode}, changed {b.returncode}"
        if a.returncode != 0:
            return sid, "BAD " + msg + a.stdout[-400:] + a.stderr[-600:]
        if b.returncode == 0:
            return sid, "BAD " + msg + b.stdout[-400:]
        res = d / "res"
        res.mkdir()
        procs = []
        for n, a_ in (("core", "tests/core --benchmark-disable"), ("regression", "tests/regression --benchmark-disable"), ("doctest", "--doctest-plus glass")):
            procs.append(subprocess.Popen(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={res}/{n}.xml {a_} > {res}/{n}.log 2>&1",
                                          shell=True, cwd=r, env={**ENV, "PYTHONPATH": str(r)}))
        for p in procs:
            p.wait()
        sh(["python3", "/opt/vp/results.py", f"{d}/out.json", f"junit:{res}/*.xml"], d)
        out = json.loads((d / "out.json").read_text())
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        lost = sorted(base - set(out["passed"]))
        v = b.stdout.strip().splitlines()[-1:] or b.stderr.strip().splitlines()[-1:]
        return sid, ("ok  " if not lost else f"TESTS FAIL {len(lost)}: {lost[:4]} ") + msg + f" {v}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ids = sys.argv[1:] or [i for i in seeds.SEEDS if not (OUT / i).exists()]
    with ThreadPoolExecutor(3) as ex:
        for sid, r in ex.map(one, ids):
            print(sid, r, flush=True)
            if not r.startswith("ok") and (OUT / sid).exists():
                shutil.rmtree(OUT / sid)
