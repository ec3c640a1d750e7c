#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
table = "| id | caught by | effect | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open("DESIGN.md").read()
a, b = "<!-- table -->\n", "<!-- end of table -->\n"
s = s[: s.index(a) + len(a)] + table + s[s.index(b) :]
open("DESIGN.md", "w").write(s)
