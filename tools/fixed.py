#!/usr/bin/env python3
"""Adds a 'fixed' line: fixed.py PROPERTY[,PROPERTY] COMMIT WHAT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
for pid in sys.argv[1].split(","):
    line = "fixed: property=%s %s %s" % (pid, sys.argv[2], sys.argv[3])
    if line not in d["fixed"]:
        d["fixed"].append(line)
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
