#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py PROPERTY --replay SCRIPT [--part N]"""
import argparse, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import runner, registry

a = argparse.ArgumentParser()
a.add_argument("property")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a.add_argument("--replay")
a.add_argument("--part", type=int, default=0)
o = a.parse_args()
P = registry.PROPS[o.property]
if o.replay:
    sys.exit(runner.replay(o.property, P, o.part, o.replay))
sys.exit(runner.run_check(o.property, P, "thorough" if o.tier == "thorough" else "quick", o.seed))
