#!/usr/bin/env python3
"""writes known_findings.json; fixed entries name the repair commit by its subject (hash resolved at writing time)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
FIXED = [l for l in open(V + "/tools/fixed.txt").read().splitlines() if l.strip()]
out = []
for l in FIXED:
    prop, subj, what = l.split(" | ")
    h = log["fix: " + subj]
    out.append("fixed: property=%s %s %s" % (prop, h, what))
try:
    old = json.load(open(V + "/known_findings.json"))
except FileNotFoundError:
    old = {"findings": []}
json.dump({"findings": old["findings"], "fixed": out}, open(V + "/known_findings.json", "w"), indent=1)
missing = [s for s in log if s.startswith("fix:") and s[5:] not in {l.split(" | ")[1] for l in FIXED}]
print("unlisted fixes:", missing)
