#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans (run by hand after adding a plan)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import plan
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in plan.PLANS:
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": plan.technique(pid), "level": plan.PLANS[pid][1], "level_note": plan.note(pid)})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by replay of behaviours and validation of "
              "recorded traces (see DESIGN.md). No hooks in /repo are needed: the public API shows the abstract state."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
