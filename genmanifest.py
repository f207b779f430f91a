#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json
from props import PROPS
TECH = {}
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    if pid not in PROPS:
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": PROPS[pid].get("technique", "model-based random testing with shrinking (own engine), under AddressSanitizer"),
        "level": "exploration",
        "level_note": PROPS[pid].get("level_note", "Generated-input search against an explicit oracle; see DESIGN.md for the generators and the oracle."),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
