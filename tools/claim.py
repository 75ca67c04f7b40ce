#!/usr/bin/env python3
"""claim.py ID technique note: record a claim and regenerate MANIFEST.json, known findings and properties"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 1:
    p = V + "/tools/claims.json"
    c = json.load(open(p))
    c[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
    json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
for t in ("mkprops", "mkknown", "mkmanifest", "mkdesign"):
    subprocess.run(["python3", "%s/tools/%s.py" % (V, t)], check=True)
