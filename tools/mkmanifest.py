#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(root, "bin"))
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in plan.PLAN:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    p = plan.PLAN[i]
    checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "model_checking",
                   "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none (no hooks in /repo)", "enable": "not needed: the checks use the public API", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, Go driver in harness/, runner in bin/. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
