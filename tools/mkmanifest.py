#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        P = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
                       "technique": P.get("technique", "TLA+ specification: behaviours generated by TLC executed on the library, every recorded step validated by TLC against the specification"),
                       "level": P["level"], "level_note": P.get("note", "Explicit TLA+ model; implementation bound by trace validation of TLC-generated histories (seeded, bounded depth and sizes)")})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "specification and conformance driver for this property not built yet")})
m = {"version": 1, "setup_cmd": "python3 /verif/tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild the library from /repo's working tree (objects cached by content under /verif/.build). See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
