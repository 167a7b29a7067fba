"""Writes MANIFEST.json: a property is claimed when it has a check."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
TECH = {
 "C01": "interprocedural ownership and alias analysis (abstract interpretation)",
 "C02": "provenance analysis of random draws (abstract interpretation)",
 "C03": "effect analysis: hidden state, environment and cache reads and writes",
 "C04": "linear-use and lock analysis of random keys",
 "C05": "import-closure and typing-only-name analysis",
 "C06": "array-API conformance analysis of namespace attributes, signatures and array operations",
 "C07": "angle-unit dataflow analysis",
 "C08": "symbolic evaluation in two systems of units, compared as algebraic normal forms",
 "C09": "symbolic evaluation of combined and separate inputs, compared as algebraic normal forms",
 "C10": "path enumeration of resampling loops with comparison facts per element",
 "C11": "symbolic index normal forms over the value-flow graph",
 "C12": "path enumeration over invalid structures, and comparison facts of the paths that return",
 "C13": "loop termination and exit-status analysis",
 "C14": "tiling analysis of chunked loops and running offsets",
 "C15": "term rewriting of composed value-flow graphs",
 "C16": "algebraic normal-form comparison of transformation pairs",
 "C17": "typestate analysis of files by abstract interpretation over piecewise arrays",
 "C18": "typestate of the lens-plane object: guard before writes, final-state values",
 "C19": "dead-parameter and option-forwarding dataflow analysis",
 "C20": "value-flow graph equivalence across flag configurations",
 "C21": "value-flow graph equivalence across array-library branches",
 "C22": "value-flow graph equivalence of shorthand and expansion",
 "C23": "symbolic end-point analysis of window construction",
 "C24": "algebraic normal-form and sign analysis of matrix construction",
 "C25": "path-sensitive abstract interpretation of the active-set loop with an algebraic normal form and sign facts from branch conditions",
 "C26": "algebraic analysis of the covariance factorisation over unrolled value-flow graphs",
 "C27": "dataflow of the pinned monopole through the solver loop",
 "C28": "algebraic normal-form comparison of symbolic evaluations with documented formulas",
 "C29": "symbolic evaluation over ordered grids, compared with documented definitions as algebraic normal forms",
 "C30": "algebraic normal-form comparison of unrolled recurrences and per-multipole factors with documented formulas",
 "C31": "algebraic normal-form comparison of sampled values as functions of the standard draws",
}
NA = {
 "N01": "The spectrum of a realisation is a statistical property of random values after numerical spherical-harmonic transforms; no static argument over the source bounds it. Its structural parts (index order, transformation pairs, key use) are claimed as C02, C11, C16, C26.",
 "N02": "Expected counts per pixel are a property of random draws and of floating-point values; the structural parts (coverage, generator, range and formula of the expected counts) are claimed as C14, C02, C10 and C31.",
 "N04": "Agreement with the analytic lensing relations to a tolerance depends on numerical integration and transform error, which no static argument in reach bounds; the recurrence and the factors per multipole are claimed as C18, C20 and C30.",
}
NOTE = ("Decides the obligations listed in the evidence from the current source, for all inputs; a construct outside the "
        "analysed subset is recorded as undecided and never alarmed. ")
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "glasscheck/checks" / f"{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"python3 -m glasscheck {i}", "thorough_cmd": f"python3 -m glasscheck {i} --thorough",
                       "technique": TECH[i], "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q glasscheck", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo's current sources with Python's ast module, build value-flow graphs, and run no code of glass."}
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
