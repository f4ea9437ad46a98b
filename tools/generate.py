#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties_text.py"""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from properties_table import PROPS
from properties_text import PROPERTIES
try:
    from properties_text import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
lines, checks = [], []
for p in sorted(PROPERTIES, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    if p["id"] in PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
na = [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]
claimed = {c["property"] for c in checks}
for p in PROPERTIES:
    if p["id"] not in claimed and p["id"] not in {a["property"] for a in na}:
        na.append({"property": p["id"], "reason": "its check is still being built"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": na,
     "notes": "Every check builds the sources of /repo's working tree itself (cached by content "
              "under /verif/build). No hooks are needed in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for name, doc, many in (("PROPERTIES", lines, True), ("MANIFEST", m, False)):
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/%s.schema.json" % name))
        for d in ([json.loads(x) for x in doc] if many else [doc]):
            jsonschema.validate(d, sch)
    except ImportError:
        pass
print(len(lines), "properties,", len(checks), "checks")
