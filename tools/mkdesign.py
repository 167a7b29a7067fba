"""Writes DESIGN.md from DESIGN.in.md, the checks, the seeded bugs and the known findings."""
import ast, json, pathlib, re, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "selftest"))
import variants
t = (V / "tools/DESIGN.in.md").read_text()
man = json.loads((V / "MANIFEST.json").read_text())
props = {}
for l in (V / "properties.jsonl").read_text().splitlines():
    d = json.loads(l); props[d["id"]] = d
extra = {}
for part in re.split(r"^### ", (V / "tools/DESIGN.checks.md").read_text(), flags=re.M)[1:]:
    i, body = part.split("\n", 1)
    extra[i.strip()] = body.strip()
out = []
for c in man["checks"]:
    i = c["property"]
    tree = ast.parse((V / f"glasscheck/checks/{i.lower()}.py").read_text())
    doc = ast.get_docstring(tree).split("\n", 1)[1].strip()
    ass = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
    out.append(f"### {i} {props[i]['title']}\n\n{doc}\n" + (f"\n{extra[i]}\n" if i in extra else "") + (("\nAssumes: " + " ".join(ass) + "\n") if ass else ""))
t = t.replace("@@CHECKS@@", "\n".join(out).rstrip())
t = t.replace("@@NA@@", "\n".join(f"* **{n['property']} {props[n['property']]['title']}** – {n['reason']}" for n in man["not_applicable"]))
t = t.replace("@@FIXED@@", "\n".join("* " + l[len("fixed: property="):] for l in (V / "known_findings.txt").read_text().splitlines() if l.startswith("fixed:")))
t = t.replace("@@KNOWN@@", "\n".join("* " + " ".join(l.split(" ")[1:]) for l in (V / "known_findings.txt").read_text().splitlines() if l.startswith("known:")))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.loads((V / "tools/caught.json").read_text())
for m in sorted((V / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {', '.join(caught.get(m.parent.name, [])) or 'not caught'} |")
t = t.replace("@@SEEDS@@", "\n".join(rows))
vs = variants.VARIANTS
t = t.replace("@@NVAR@@", str(len(vs))).replace("@@NBUG@@", str(sum(v[0] is not None for v in vs))).replace("@@NREF@@", str(sum(v[0] is None for v in vs)))
(V / "DESIGN.md").write_text(t)
