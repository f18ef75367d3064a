#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (planted bugs, not applicable). Development only."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{R}/DESIGN.md").read()
res = {}
p = f"{R}/tools/matrix.txt"                    # "ID property caught-by" lines, written by tools/matrix
if os.path.exists(p):
    for l in open(p):
        f = l.split(None, 1)
        if f: res[f[0]] = f[1].strip()
rows = ["| bug | property | needs | found by |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{R}/seeded"), key=lambda i: (json.load(open(f"{R}/seeded/{i}/meta.json"))["property"], i)):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '(not recorded)')} |")
na = json.load(open(f"{R}/MANIFEST.json"))["not_applicable"]
nar = [f"* **{x.get('property_id') or x.get('id') or x.get('property')}** {x['reason']}" for x in na]
def put(tag, lines):
    global s
    s2 = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
    s = s2
put("MATRIX", rows); put("NA", nar)
open(f"{R}/DESIGN.md", "w").write(s)
