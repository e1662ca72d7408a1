#!/usr/bin/env python3
"""source of OBLIGATIONS.md (run: python3 lib/obligations.py > OBLIGATIONS.md)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
print("# Obligations\n\nOne line per obligation: name, tier, what is decided, bounds. Generated from lib/checks.py.\n")
for p in sorted(checks.OBS):
    print("## %s\n" % p)
    if p == "C24":
        print("The obligations of C02-C04 and C07-C21 that run on one core, judged on memory faults, arithmetic faults and leaks only: " + str(len(checks.OBS[p])) + " obligations.\n")
        continue
    for o in checks.OBS[p]:
        print("* `%s`%s: %s; %s" % (o.name, "" if o.tier == "quick" else " (thorough)", o.what, o.bound))
    print()
