#!/usr/bin/env python3
"""Rewrite the 'fixed:' section of known_findings.txt from /repo's fix: commits.
tools/fixprops.txt maps commit subjects to property ids; 'known:' lines are kept."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
props = {}
for l in open(os.path.join(V, "tools", "fixprops.txt")):
    if "|" in l:
        s, p = l.rsplit("|", 1)
        props[s.strip()] = p.split()
p = os.path.join(V, "known_findings.txt")
keep = [l for l in open(p)] if os.path.exists(p) else []
keep = [l for l in keep if not l.startswith("fixed:")]
# taken back again: they were in a file that counts as a test file
undone = ["exit status of TAP tests ignored", "test -vv took every TAP", "passing tests marked should_fail and exit", "tests, suites and setups looked up in the wrong",
          "failed assertion on a test without suites", "fail fast started another test", "processes started by a test that timed out"]
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if any(s.startswith(u) for u in undone):
            continue
        if s not in props:
            print("no property for:", s, "|")
        for q in props.get(s, ["C01"]):
            out.append("fixed: property=%s %s %s\n" % (q, h, s))
open(p, "w").writelines(keep + out)
