#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md (planted bugs) from seeded/*/meta.json and seeded/caught.txt"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(R + "/DESIGN.md").read()
d = re.sub(r"## 7\. Planted bugs.*", "", d, flags=re.S).rstrip() + "\n\n"
t = "## 7. Planted bugs\n\nAll compile and pass the 81 tests; each has a demonstration in\n`seeded/<id>/` or, where it is not run by every vcheck for reasons of time, in `planted/<id>/`.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = {}
f = R + "/tools/caught.txt"
if os.path.exists(f):
    for l in open(f):
        a = l.split(None, 1)
        if len(a) == 2: caught[a[0]] = a[1].strip()
dirs = {b: d for d in ("seeded", "planted") for b in os.listdir(f"{R}/{d}")}
for b in sorted(dirs):
    m = json.load(open(f"{R}/{dirs[b]}/{b}/meta.json"))
    t += f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |\n"
open(R + "/DESIGN.md", "w").write(d + t)
