#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from catalog import PROPS, NA

with open("properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
na = {p for p, r in NA}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./run.py %s --tier quick" % p["id"],
                 "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                for p in PROPS if p["id"] not in na],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA],
     "notes": "Every check rebuilds libmsi and the tools from /repo's working tree into /verif/.build. See DESIGN.md."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
