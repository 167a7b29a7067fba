"""Development aid: (re)generate glasscheck/influence.json from the reviewed tree."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)
from glasscheck.project import Project
from glasscheck.influence import configs, influence, key
from glasscheck.util import entries, is_protocol
p = Project()
t = {}
for q in entries(p):
    if is_protocol(p, q):
        continue
    for c in configs(p, q):
        r, e, it = influence(p, q, c)
        t[f"{q}|{key(c)}"] = [sorted(r), sorted(e)]
out = pathlib.Path(__file__).resolve().parent.parent / "glasscheck/influence.json"
out.write_text("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(t.items())) + "\n}\n")
print(len(t))
