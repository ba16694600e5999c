#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md: the number of findings and the table of planted bugs."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(R + "/tools/design.md").read()
n = sum(l.startswith("fixed:") for l in open(R + "/findings.txt"))
rows = ["| bug | property | needs | what it breaks | caught by |", "|-|-|-|-|-|"]
caught = json.load(open(R + "/tools/caught.json"))
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, 'not tried')} |")
s = s.replace("{N}", str(n)).replace("{TABLE}", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(s)
