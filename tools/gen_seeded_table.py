#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- table -->", "| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], " ".join(str(m["needs"]).split())))
rows.append("<!-- end -->")
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- table -->.*?<!-- end -->|@TABLE@", lambda _: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)
