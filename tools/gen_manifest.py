#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": checks.TECHNIQUE.get(i, checks.DEFAULT_TECHNIQUE),
            "level": "exploration",
            "level_note": checks.NOTE.get(i, checks.DEFAULT_NOTE)})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
