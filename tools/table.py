#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | caught | what it breaks |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], res.get(b, "?"),
                m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted changes")
j = s.find("@@TABLE@@")
if j < 0:
    j = s.index("| change | property")
open(p, "w").write(s[:j] + "\n".join(rows) + "\n")
