#!/usr/bin/env python3
"""Rewrites the table of planted bugs and the number of fixes in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"; s = open(p).read()
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); rows.append(f"| {i} | {m['property']} | {m['needs']} |")
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
n = len(json.load(open(V + "/KNOWN_FINDINGS.json"))["fixed"])
s = re.sub(r"\d+ genuine defects, each", f"{n} genuine defects, each", s)
open(p, "w").write(s); print(len(rows), "planted", n, "fixed")
