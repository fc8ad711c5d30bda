#!/usr/bin/env python3
"""bug_table.py LOG: puts the rows of try_bugs.sh's output into DESIGN.md's table (rows of other bugs stay)"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(H, "DESIGN.md")
s = open(D).read()
ROW = r"^\| ([cg]\d\d_\w+) \|.*$"
rows = {m.group(1): m.group(0) for m in re.finditer(ROW, s, re.M)}
for l in open(sys.argv[1]):
    p = l.split()
    if len(p) < 3 or not os.path.isdir(os.path.join(H, "seeded", p[0])):
        continue
    m = json.load(open(os.path.join(H, "seeded", p[0], "meta.json")))
    r = re.search(r"-(\d+)\.json", l)
    rows[p[0]] = "| %s | %s | %s | %s |" % (p[0], p[1], "yes, run " + r.group(1) if r else "no", m["what_it_breaks"])
t = "\n".join(["| bug | check | caught | what it breaks |", "|---|---|---|---|"] + [rows[k] for k in sorted(rows)])
s = re.sub(r"\| bug \| check.*?\n(?=\n)", lambda m: t + "\n", s, flags=re.S)
open(D, "w").write(s)
