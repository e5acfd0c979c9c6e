#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md."""
import json, glob, os, re
here = os.path.dirname(os.path.abspath(__file__))
MISSED = {}  # bug -> remark, when the check of its property does not catch it
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/"), MISSED.get(n, d["property"])))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
if "BUGTABLE" in s:
    s = s.replace("BUGTABLE", a + "\n" + b)
i, k = s.index(a), s.index(b)
open(p, "w").write(s[:i] + a + "\n" + "\n".join(rows) + "\n" + s[k:])
