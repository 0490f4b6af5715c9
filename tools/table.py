#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| Planted | What it breaks | Caught by |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (d[7:-1], m["what_it_breaks"], m["property"]))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- tools/table.py writes this table -->\n).*?(\n<!-- end of table -->)",
           lambda m: m.group(1) + "\n".join(rows) + m.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
