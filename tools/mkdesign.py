#!/usr/bin/env python3
"""fill in the table of properties and of planted bugs in DESIGN.md from design_notes.json, seeded/ and tools/caught.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/design_notes.json"))
claims = json.load(open(V + "/tools/claims.json"))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
t = []
for p in P:
    i = p["id"]
    t.append("### %s %s\n\n%s\n" % (i, p["title"], notes.get(i, "Monitored by `checks/%s.py`, described by its docstring; technique and reach below." % i)))
    if i in claims:
        t.append("*Technique:* %s. *Reach:* %s\n" % (claims[i]["technique"], claims[i]["note"]))
s = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    s.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, "?")))
f = open(V + "/DESIGN.md").read()
f = re.sub(r"(?s)(## Decisions per property\n\n).*?(?=## Planted bugs)", lambda m: m.group(1) + "\n".join(t) + "\n", f)
f = re.sub(r"(?s)(## Planted bugs\n\n).*?(?=## Things worth knowing)", lambda m: m.group(1) + "| bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(s) + "\n\n", f)
open(V + "/DESIGN.md", "w").write(f)
