#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | caught by | what it breaks | needs |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    f = H + "/seeded/" + i + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f)); rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["property"] + " quick", m["what_it_breaks"], m["needs"]))
s = open(H + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", t)
open(H + "/DESIGN.md", "w").write(s)
