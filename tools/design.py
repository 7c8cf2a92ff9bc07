#!/usr/bin/env python3
"""DESIGN.md = tools/DESIGN.in.md + the table of planted bugs."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
got = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {got.get(d, 'not run')} |")
s = open(f"{V}/tools/DESIGN.in.md").read().replace("@@SEEDS@@", "\n".join(rows))
open(f"{V}/DESIGN.md", "w").write(s.replace("@@MORE@@\n", ""))
