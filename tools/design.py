#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
LIM = json.load(open(H + "/tools/limits.json")); SPEC = json.load(open(H + "/tools/techniques.json")); KF = json.load(open(H + "/known-findings.json"))
out = open(H + "/tools/design-head.md").read()
js = "const o={};for(const f of require('fs').readdirSync('%s/analyzer/checks')){const c=require('%s/analyzer/checks/'+f);o[f.slice(0,3)]={e:c.explain,r:c.rule,f:c.floor}};console.log(JSON.stringify(o))" % (H, H)
C = json.loads(subprocess.check_output(["node", "-e", js]))
out += "## Per property\n\n"
for p in P:
    i = p["id"]; out += f"### {i} {p['title']}\n"
    if i in C:
        out += f"*Analysis.* {C[i]['e']}\n\n*Rule.* {C[i]['r']}\n\n"
        out += f"*Bounds and scope.* {LIM.get(i, 'as described; no further restriction')}. At least {C[i]['f']} obligations or no answer.\n\n"
    else: out += f"Not applicable: {SPEC['not_applicable'].get(i)}.\n\n"
out += "## Genuine defects found\n\nRepaired, one `fix:` commit each (demonstrated against the real code first, suite unchanged and passing):\n\n"
for f in KF["fixed"]: out += "* " + f[len("fixed: "):] + "\n"
out += "\nRecorded, not repaired:\n\n"
for f in KF["known"]: out += f"* {f['property']}: {f['what']}. (A repair needs a decision on how archaic offsets with seconds should be named, so it is not small.)\n"
out += open(H + "/tools/design-tail.md").read()
out += "\n## Planted changes and which check catches them\n\n| id | breaks | needs | caught by |\n|---|---|---|---|\n"
S = H + "/seeded"
for d in sorted(os.listdir(S)):
    m = json.load(open(f"{S}/{d}/meta.json")); cl = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out += f"| {d} | {cl(m['what_it_breaks'])} | {cl(m['needs'])} | {m['property']} |\n"
open(H + "/DESIGN.md", "w").write(out)
