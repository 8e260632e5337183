#!/usr/bin/env python3
"""DESIGN.md from design.in, the planted bugs' descriptions and the mutation results noted in design.in"""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for s in sorted(os.listdir(os.path.join(D, "seeded"))):
    m = json.load(open(os.path.join(D, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s |" % (s, m.get("caught_by", m["property"]), m["needs"].replace("|", "\\|")))
t = open(os.path.join(D, "design.in")).read().replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(D, "DESIGN.md"), "w").write(t)
