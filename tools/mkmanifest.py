#!/usr/bin/env python3
"""Write MANIFEST.json from tools/claims.json: {id: {technique, note}} and tools/unclaimed.json {id: reason}."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/tools/claims.json"))
m = {"version": 1,
     "setup_cmd": "python3 lib/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "Checks build sanitizer-instrumented copies of /repo's working tree under /verif/.build (git-ignored), keyed by a "
              "hash of the sources, and never write into /repo. No hooks are compiled into the sources."}
for i in ids:
    if i in claims and os.path.exists("%s/checks/%s.py" % (V, i)):
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py" % i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": claims[i]["technique"],
                            "level": claims[i].get("level", "exploration"), "level_note": claims[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its monitor is still being built (the technique applies)"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
