#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
print("| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for p, i, w, n, c in sorted(rows):
    print("| %s | %s | %s | %s | %s |" % (i, p, w.replace("|", "\\|"), n.replace("|", "\\|"), c))
