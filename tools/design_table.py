#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json (and the number of fixed findings)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->\n).*(<!-- /seeds -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
n = sum(l.startswith("fixed:") for l in open(V + "/known_findings.txt"))
s = re.sub(r"\(\d+ lines \"fixed:\"\)", "(%d lines \"fixed:\")" % n, s)
open(V + "/DESIGN.md", "w").write(s)
