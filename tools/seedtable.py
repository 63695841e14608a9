#!/usr/bin/env python3
"""usage: seedtable.py LOG...: puts the results of runseeds.py (and matrix.py) into DESIGN.md"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
own, also = {}, {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (caught|quiet|RC)", l)
        if m:
            own[m.group(1)] = m.group(3)
        m = re.match(r"(\S+): violated (.*?)(?: \||$)", l)
        if m:
            also[m.group(1)] = [x for x in m.group(2).split() if x.startswith("C")]
rows = ["| bug | what it breaks | needs | own check | other checks that notice |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(f"{ROOT}/seeded")):
    j = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    others = " ".join(x for x in also.get(i, []) if x != j["property"])
    rows.append(f"| {i} | {j['what_it_breaks']} | {j['needs']} | {j['property']} {own.get(i, '?')} | {others or ('-' if i in also else '?')} |")
p = f"{ROOT}/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
