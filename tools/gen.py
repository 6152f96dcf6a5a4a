#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source for both)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]} if p.get("state") else {}),
                    "observe_at": p["observe"], "hook_needed": p.get("hook")},
    }))
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    })
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
