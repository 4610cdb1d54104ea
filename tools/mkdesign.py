#!/usr/bin/env python3
"""Rewrites the tables of planted bugs in DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property = check that catches it | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(?s)(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s)
open(V + "/DESIGN.md", "w").write(s)
