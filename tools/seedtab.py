#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read().split("\n| bug |")[0].rstrip("\n")
rows = ["", "", "| bug | check | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"]))
open(p, "w").write(s + "\n".join(rows) + "\n")
