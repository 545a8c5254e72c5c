#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (p.split("/")[-2], m["property"], m["needs"]))
d = V + "/DESIGN.md"
s = open(d).read()
a = s.index("\n|-|-|-|\n| c01") + len("\n|-|-|-|\n")
b = s.index("\n\nChanges tried and not kept")
open(d, "w").write(s[:a] + "\n".join(rows) + s[b:])
