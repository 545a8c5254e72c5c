#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TRACE = ("TLA+ specification (Registry) model checked with TLC; histories of the real code under a controlled "
         "scheduler (programs enumerated from the specification) judged by TLC against it")
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": checks.TECHNIQUE.get(i, TRACE),
            "level": c[1],
            "level_note": checks.NOTE.get(i, "") or checks.CONC_NOTE,
        })
    else:
        out["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
