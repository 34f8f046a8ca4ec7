#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the SEEDTABLE marks)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property = check that catches it | needs |", "|---|---|---|"]
missed = dict(l.split(None, 1) for l in open(os.path.join(R, "tools/seeds-missed.txt"))) if os.path.exists(os.path.join(R, "tools/seeds-missed.txt")) else {}
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"] + (" (missed: %s)" % missed[d].strip() if d in missed else ""), m["needs"].replace("|", "/")))
p = os.path.join(R, "DESIGN.md"); s = open(p).read()
a, b = "<!-- SEEDTABLE -->\n", "<!-- /SEEDTABLE -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
