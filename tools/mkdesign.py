#!/usr/bin/env python3
"""DESIGN.md = tools/design.md + the planted bugs and who catches them + the scenarios of the last quick run (evidence/)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(V, "tools", "design.md")).read()
caught = {}
f = os.path.join(V, "tools", "caught.json")
if os.path.exists(f): caught = json.load(open(f))
out += "\n## Planted bugs (`seeded/`) and the checks which catch them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
d = os.path.join(V, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    out += "| %s | %s | %s; %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), caught.get(i, "?"))
bf = os.path.join(V, "tools", "bounds.json")
B = json.load(open(bf)) if os.path.exists(bf) else {}
for n in range(1, 100):
    p = os.path.join(V, "evidence", "P%02d.json" % n)
    if not os.path.exists(p): continue
    e = json.load(open(p))
    if e["tier"] != "quick" or e["violations"] or not e["coverage"].get("exhaustive"): continue
    B["P%02d" % n] = {"wall": round(e["wall_s"]), "sc": [[s["name"], s["bound"], s["executions"], s["transitions"]] for s in e["coverage"]["scenarios"]]}
json.dump(B, open(bf, "w"), indent=0)
out += "\n## Scenarios and bounds (quick tier; executions / checked operations)\n"
for p in sorted(B):
    out += "\n**%s** (%d s)\n" % (p, B[p]["wall"])
    for s in B[p]["sc"]: out += "* %s: %s (%d / %d)\n" % tuple(s)
open(os.path.join(V, "DESIGN.md"), "w").write(out)
