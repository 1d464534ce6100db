#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, plans.py and the list of what is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plans import PLANS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NOT = {l.split()[0]: l.split(None, 1)[1].strip() for l in open(os.path.join(V, "tools", "unclaimed.txt")) if l.strip()}
checks = []
for i in ids:
    if i in NOT:
        continue
    p = PLANS[i]
    assert p["rule"] and p["technique"] and p["note"], i
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"] + " Assumes: " + "; ".join(p["assumes"]) + "."})
m = {"version": 1, "setup_cmd": "python3 -B tools/setup.py",
     "hooks": {"guard": "go build -overlay (no hook in /repo)",
               "enable": "tools/instr rewrites copies of /repo's current files into a go build overlay at check time; /repo itself has no hooks",
               "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
     "notes": "DESIGN.md describes the method; known_findings.txt lists the defects found and repaired."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
