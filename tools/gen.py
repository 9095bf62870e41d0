#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand, not by the checks)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_CLAIMED
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_CLAIMED]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["obs"], "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p["id"],
                   "technique": p["tech"], "level": p.get("level", "exploration"),
                   "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_CLAIMED],
     "notes": "No hooks are compiled into /repo: all monitors observe public interfaces, wrapped collaborators (SQL driver, steppers, terms, callbacks) and processes. run.sh rebuilds the check and the library from /repo's working tree on every run."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
