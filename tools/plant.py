#!/usr/bin/env python3
"""plant.py SPEC.py [--nochecks]: SPEC defines id, prop, needs, breaks, edits=[(path, old, new)], demo (text of demo.sh), files={name: text}.
Applies the edits in /repo, builds, runs the stable tests and the demo with and without, writes
/verif/seeded/<id>/, runs the property's check against it, and restores /repo."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    bugs = ns["bugs"] if "bugs" in ns else [ns]
    for b in bugs:
        plant(b)
def plant(b):
    d = "%s/seeded/%s" % (V, b["id"])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty repo"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write("#!/bin/sh\n" + b["demo"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in b.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    res = []
    try:
        sh("bash /opt/vp/build.sh")
        a = sh("timeout 300 sh %s/demo.sh" % d, cwd=R)
        if a.returncode:
            print(b["id"], "DEMO FAILS ON UNCHANGED", a.stdout[-500:], a.stderr[-500:]); ok = False
        for p, o, n in b["edits"]:
            s = open(R + "/" + p).read()
            if s.count(o) != 1:
                print(b["id"], "EDIT count", s.count(o), o); ok = False; return
            open(R + "/" + p, "w").write(s.replace(o, n))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(b["id"], "BUILD FAILS", r.stdout[-1500:], r.stderr[-500:]); ok = False; return
        a = sh("timeout 300 sh %s/demo.sh" % d, cwd=R)
        if not a.returncode:
            print(b["id"], "DEMO PASSES WITH PATCH"); ok = False
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base.get("stable") or base.get("tests") or base.get("passing")
        got = json.load(open("/tmp/plant.json"))
        gp = set(got.get("passed", []))
        if want and gp:
            miss = set(want) - gp
            if miss:
                print(b["id"], "TESTS FAIL", sorted(miss)[:5]); ok = False
        if "--nochecks" not in sys.argv:
            for c in [b["prop"]] + b.get("also", []):
                if os.path.exists("%s/checks/%s.py" % (V, c)):
                    k = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/%s.py" % c, cwd=V)
                    if k.returncode == 1 and "VIOLATION property=%s" % c in k.stdout:
                        res.append(c)
                    print(b["id"], c, "CAUGHT" if k.returncode == 1 and "VIOLATION property=%s" % c in k.stdout else "MISSED rc=%d" % k.returncode,
                          [l for l in k.stdout.split("\n") if l.startswith("VIOL")][:1], k.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        if not ok:
            print(b["id"], "NOT VALID"); shutil.move(d, "/tmp/rej_" + b["id"] + str(os.getpid()))
        else:
            print(b["id"], "valid")
            p = V + "/tools/caught.json"
            o = json.load(open(p)) if os.path.exists(p) else {}
            if "--nochecks" not in sys.argv:
                o[b["id"]] = ", ".join(res) or "missed"
            json.dump(dict(sorted(o.items())), open(p, "w"), indent=1)
main(sys.argv[1])
