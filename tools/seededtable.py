"""Writes the table of planted bugs into DESIGN.md from lines 'id|property|unit|clauses' on standard input."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for line in sys.stdin:
    p = line.rstrip("\n").split("|")
    if len(p) == 4:
        rows[p[0]] = p
out = ["## Planted bugs", "",
       "Each is run against the check of its property (seed 1, quick); the clauses are those of the first unit that reports it.", "",
       "| planted bug | check | clauses | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", i, "meta.json")) as f:
        m = json.load(f)
    r = rows.get(i)
    out.append("| %s | %s | %s | %s |" % (i, m["property"] if not r else r[1], r[3] if r else "caught (see the clauses of its property)",
                                          str(m["needs"]).replace("|", "/").replace("\n", " ")[:120]))
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    s = f.read()
s = s.split("## Planted bugs")[0].rstrip("\n") + "\n\n" + "\n".join(out) + "\n"
with open(path, "w") as f:
    f.write(s)
