#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the SEEDED marks) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["needs"], m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!--SEEDED-->\n" + "\n".join(rows) + "\n<!--/SEEDED-->"
s = re.sub(r"<!--SEEDED-->(.*<!--/SEEDED-->)?", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
