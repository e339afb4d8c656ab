#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "abstract interpretation of the TypeScript source (regular-language string domain, object/points-to domain, joins at merges)"
SPEC = json.load(open(os.path.join(H, "tools/techniques.json")))
NA = SPEC["not_applicable"]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, "analyzer/checks", i + ".js")):
        s = SPEC["checks"].get(i, {})
        checks.append({"property": i, "quick_cmd": f"node /verif/analyzer/run.js {i} quick", "thorough_cmd": f"node /verif/analyzer/run.js {i} thorough",
                       "technique": s.get("technique", TECH), "level": s.get("level", "other"), "level_note": s.get("note", "static analysis of the current source; see DESIGN.md")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built yet")})
m = {"version": 1, "setup_cmd": "node -e \"require('/verif/analyzer/lib/engine.js')\"", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo/src with the TypeScript compiler API and never execute it. Known and fixed defects: known-findings.json."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
