"""Running checks: obligations, evidence, known findings, verdict."""

from __future__ import annotations

import importlib
import json
import os
import pathlib
import re
import sys
import time
import traceback

from . import project as pj

VERIF = pathlib.Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.txt"


class Checker:
    """Collects the obligations of one property."""

    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.notes = []
        self.analysed = {}
        self.project = pj.Project()

    def _add(self, status, rule, construct, detail, loc):
        if loc is not None and not isinstance(loc, str):
            loc = f"{loc[0]}:{loc[1]} ({loc[2]})"
        self.obs.append(dict(rule=rule, construct=construct, status=status, detail=detail, loc=loc))

    def ok(self, rule, construct, detail="", loc=None):
        self._add("holds", rule, construct, detail, loc)

    def bad(self, rule, construct, detail="", loc=None):
        self._add("violated", rule, construct, detail, loc)

    def unk(self, rule, construct, detail="", loc=None):
        self._add("undecided", rule, construct, detail, loc)

    def decide(self, value, rule, construct, detail="", loc=None):
        (self.ok if value is True else self.bad if value is False else self.unk)(rule, construct, detail, loc)

    def section(self, fn, *args, **kw):
        """One independent part of a check; a part that cannot be analysed is undecided."""
        try:
            return fn(*args, **kw)
        except Exception as ex:
            traceback.print_exc()
            name = next((a for a in args if isinstance(a, str)), getattr(fn, "__name__", "section"))
            self.unk("analysis completes", f"{getattr(fn, '__name__', '')} {name}", f"{type(ex).__name__}: {ex}")

    def note(self, s):
        self.notes.append(s)

    def count(self, it):
        """Record what an interpretation has analysed."""
        for q, k in it.called.items():
            self.analysed[q] = self.analysed.get(q, 0) + k


def known_findings(pid):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\S+) rule=(\S+) construct=(\S+)\s*(.*)", line)
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


def slug(s):
    return re.sub(r"\s+", "_", str(s))


def run(pid, tier):
    t0 = time.time()
    try:
        mod = importlib.import_module(f"glasscheck.checks.{pid.lower()}")
    except ModuleNotFoundError as ex:
        print(f"no check for {pid}: {ex}", file=sys.stderr)
        return 2
    sys.setrecursionlimit(20000)
    try:
        c = Checker(pid, tier)
        mod.check(c)
    except Exception as ex:
        # what could not be analysed is undecided, never held; nothing at all decided is an error
        traceback.print_exc()
        c.unk("analysis completes", pid, f"{type(ex).__name__}: {ex}")
    if not any(o["status"] in ("holds", "violated") for o in c.obs):
        print(f"ANALYSIS-BROKEN property={pid}: nothing was decided", file=sys.stderr)
        return 3
    known = known_findings(pid)
    viol, seen = [], set()
    for o in c.obs:
        if o["status"] != "violated":
            continue
        key = (slug(o["rule"]), slug(o["construct"]))
        if key in known:
            if key not in seen:
                print(f"KNOWN-FINDING: property={pid} {o['construct']}: {o['detail']} {known[key]}")
            seen.add(key)
            o["status"] = "known finding"
        else:
            viol.append(o)
    by_rule = {}
    for o in c.obs:
        d = by_rule.setdefault(o["rule"], {"holds": 0, "violated": 0, "undecided": 0, "known finding": 0})
        d[o["status"]] += 1
    n = len(c.obs)
    held = sum(o["status"] == "holds" for o in c.obs)
    und = sum(o["status"] == "undecided" for o in c.obs)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "source_digest": c.project.digest,
            "source_modules": len(c.project.modules),
            "functions_analysed": len(c.analysed),
            "function_expansions": sum(c.analysed.values()),
            "obligations": n,
            "discharged": held,
            "undecided": und,
            "rules": by_rule,
            "samples": [o for o in c.obs if o["status"] == "holds"][:: max(1, held // 12)][:14],
            "undecided_list": [o for o in c.obs if o["status"] == "undecided"][:40],
            "violated_list": viol[:40],
            "notes": c.notes[:40],
            "analysed": sorted(c.analysed)[:400],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{pid}: {n} obligations, {held} hold, {und} undecided, {len(viol)} violated "
          f"({len(c.analysed)} functions analysed, {time.time() - t0:.1f} s)")
    if os.environ.get("GLASSCHECK_VERBOSE"):
        for o in c.obs:
            print(f"  {o['status']:9s} {o['rule']:28s} {o['construct']}  {o['detail']}  [{o['loc']}]")
    if viol:
        replay = VERIF / "evidence" / f"{pid}.violations.txt"
        lines = []
        for o in viol:
            lines.append(f"{o['rule']}: {o['construct']}: {o['detail']} at {o['loc']}")
        replay.write_text("\n".join(lines) + "\n")
        for ln in lines[:20]:
            print("  " + ln)
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ids = []
    for a in argv:
        if a == "--thorough":
            tier = "thorough"
        elif a == "--quick":
            tier = "quick"
        else:
            ids.append(a)
    if ids == ["all"]:
        ids = sorted(p.stem.upper() for p in (VERIF / "glasscheck" / "checks").glob("[cn][0-9][0-9].py"))
    worst = 0
    for i in ids:
        try:
            rc = run(i, tier)
        except Exception:
            traceback.print_exc()
            rc = 4
        worst = max(worst, rc)
    return worst
