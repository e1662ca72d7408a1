#!/usr/bin/env python3
"""source of MANIFEST.json (run: python3 lib/manifest.py)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the LLVM IR compiled from /repo (symx, this repository) with z3 deciding every branch and assertion; counterexamples replayed natively"
NA = {}
NOTE = {
 "C22": "bounded: two threads, the stated number of preemptions, the stated matrix sizes",
}
m = dict(version=1, setup_cmd="make -s -j8 -C engine", checks=[], not_applicable=[])
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in checks.OBS and p not in NA:
        m["checks"].append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="./check %s --tier thorough" % p, technique=TECH, level="model_checking",
            level_note=NOTE.get(p, "every value of the symbolic inputs within the bounds listed in DESIGN.md and in the evidence; nothing is claimed beyond them")))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
