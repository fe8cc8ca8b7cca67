#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in glob.glob(os.path.join(V, "seeded", "*", "meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s[:s.index("\n* C01:", s.index("## Planted bugs")) + 1]
open(p, "w").write(head + "".join(f"* {k}: {', '.join(sorted(by[k]))}\n" for k in sorted(by)))
