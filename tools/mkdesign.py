#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md and the detection results in tools/detected.txt."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | needs | quick check |", "|---|---|---|---|"]
res = dict(l.rstrip("\n").split(" ", 1) for l in open(f"{root}/tools/detected.txt")) if os.path.exists(f"{root}/tools/detected.txt") else {}
for i in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, 'result not recorded')} |")
open(f"{root}/DESIGN.md", "w").write(open(f"{root}/tools/DESIGN.in.md").read().replace("@TABLE@", "\n".join(rows)))
