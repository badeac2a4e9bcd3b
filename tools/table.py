#!/opt/venv/bin/python
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
The second column is measured by tools/plant.py run; misses are listed in MISSED below."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
OTHER = {"c19-abstol": "C19 (C11 does not: outliers still lose most weight)"}
MARK = "<!-- table -->\n"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = s[: s.index(MARK)] if MARK in s else s.rstrip("\n") + "\n\n"
rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    by = MISSED.get(i) or OTHER.get(i) or m["property"]
    rows.append(f"| {i} | {by} | {m['what_it_breaks']} |\n")
s += MARK + "| id | caught by | what it breaks |\n|---|---|---|\n" + "".join(rows)
open(p, "w").write(s)
print(len(rows), "rows")
