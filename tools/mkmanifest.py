#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for c in CHECKS:
    assert c["id"] in props, c["id"]
    checks.append({
        "property": c["id"],
        "quick_cmd": f"./run.sh {c['id']} quick",
        "thorough_cmd": f"./run.sh {c['id']} thorough",
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
done = {c["id"] for c in CHECKS}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "no check has been built for it yet"} for p in props if p not in done],
    "notes": "Every check is built from /repo's working tree by run.sh and explores its bounded space exhaustively against a reference model; known findings are in known_findings.json.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
