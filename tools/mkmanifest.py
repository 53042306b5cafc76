#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks_table import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: interposition is done at link time (--wrap) from /verif. /repo carries only 'fix:' commits; known_findings.txt lists them."}
for i in ids:
    c = CHECKS.get(i)
    if not c: m["not_applicable"].append({"property": i, "reason": "check not built yet"}); continue
    m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
        "technique": c["technique"], "level": c.get("level", "exploration"),
        "level_note": c["note"] + (" Thorough tier adds a libFuzzer campaign over the same oracle." if c.get("fuzz_s") else "")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "unclaimed")
