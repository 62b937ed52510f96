#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the registry (lpp/rules/*.py) and lpp/na.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lpp import reg, na

ps = reg.props()
with open(HERE + "/properties.jsonl", "w") as f:
    for i in sorted(ps):
        assert len(ps[i].title) <= 80, i
        f.write(json.dumps(ps[i].json()) + "\n")
    for p in na.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if k != "reason"}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m lpp.extract",
     "checks": [dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                     technique=ps[i].technique, level="other", level_note=ps[i].note) for i in sorted(ps)],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in na.PROPS]}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import glob
res = {}
for l in open(HERE + "/seed-results.txt"):
    if l.strip():
        a, _, b = l.partition(":"); res[a.strip()] = b.strip()
out = [open(HERE + "/design_head.md").read(), "\n## Properties decided\n"]
for i in sorted(ps):
    p = ps[i]
    out.append("### %s %s\n\n%s\n\n* Decided by: %s.\n* Over: %s.\n* Why not tests: %s\n* Anchors: %s.\n* Strength and limits: %s\n" % (
        i, p.title, p.statement, p.technique, p.quant, p.why, "; ".join("%s (%s)" % (a, b) for a, b in p.mech), p.note))
out.append("\n## Planted bugs\n\nSix representative ones are in `seeded/` (each costs several minutes in the acceptance run); the others, verified the same way, are in `planted/`.\n\n| id | property | needs | checks that report it |\n|---|---|---|---|\n")
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json") + glob.glob(HERE + "/planted/*/meta.json")):
    m = json.load(open(f)); k = f.split("/")[-2]
    out.append("| %s | %s | %s | %s |\n" % (k, m["property"], m["needs"].replace("|", "/"), res.get(k, "?")))
out.append("\n## Genuine defects found\n\n")
for l in open(HERE + "/known-findings.txt"):
    if l.startswith(("known:", "fixed:")):
        out.append("* " + l)
out.append("\n## Not applicable\n\n")
for p in na.PROPS:
    out.append("* **%s %s**: %s.\n" % (p["id"], p["title"], p["reason"]))
open(HERE + "/DESIGN.md", "w").write("".join(out))
print(len(ps), "claimed", len(na.PROPS), "not applicable")
