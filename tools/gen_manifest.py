#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = PROPS.get(i)
    if not c: na.append(dict(property=i, reason="its monitor is not built yet")); continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the monitors observe the library through its public API, redirected allocator and file functions, and sanitizer instrumentation."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
