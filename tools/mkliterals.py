#!/usr/bin/env python3
"""Records the literals of the reference tree (VP_REPO=...), so that run.py can tell which ones are new."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
ints, strs = run.literals()
p = V + "/harness/base_literals.json"
old = json.load(open(p)) if os.path.exists(p) and "--merge" in sys.argv else {"ints": [], "strs": []}
json.dump({"ints": sorted(set(old["ints"]) | ints), "strs": sorted(set(old["strs"]) | {s.hex() for s in strs})}, open(p, "w"), indent=0)
