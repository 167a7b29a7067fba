"""Run a python snippet with the project of a variant: one.py K 'code' (names p, analyse, Config, show available)."""
import sys, os, pathlib, shutil, tempfile
HERE = pathlib.Path(__file__).resolve().parent
sys.path[:0] = [str(HERE), str(HERE.parent)]
import variants
k = sys.argv[1]
v = variants.VARIANTS[int(k)] if k.lstrip('-').isdigit() else next(x for x in variants.VARIANTS if any(k in str(y) for y in x[2:]))
d = pathlib.Path(tempfile.mkdtemp())
shutil.copytree("/repo/glass", d / "glass"); shutil.copy("/repo/pyproject.toml", d)
f = d / v[1]; s = f.read_text()
for o, n in zip(v[2::2], v[3::2]): s = s.replace(o, n)
f.write_text(s)
os.environ["GLASSCHECK_REPO"] = str(d)
from glasscheck.project import Project
from glasscheck.interp import *
from glasscheck.ir import *
p = Project()
exec(sys.argv[2])
shutil.rmtree(d)
