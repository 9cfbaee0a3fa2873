#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one place to keep them in step)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    cmd = f"bash run.sh {p['crate']} {p['id']}"
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
