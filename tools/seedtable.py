#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md from seeded/*/meta.json."""
import json, os, re
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = "## Planted changes and what catches them\n"
t = open(v + "/DESIGN.md").read().split(head)[0]
rows = []
for d in sorted(os.listdir(v + "/seeded"), key=lambda s: (json.load(open(f"{v}/seeded/{s}/meta.json"))["property"], s)):
    m = json.load(open(f"{v}/seeded/{d}/meta.json"))
    f = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(f"{v}/seeded/{d}/patch.diff").read(), re.M)))
    one = lambda s: " ".join(s.split()).replace("|", "/")
    rows.append(f"| {d} | {m['property']} | {', '.join(os.path.basename(x) for x in f)} | {one(m['what_it_breaks'])} | {one(m['needs'])} |")
extra = open(v + "/tools/sweeps.md").read() if os.path.exists(v + "/tools/sweeps.md") else ""
open(v + "/DESIGN.md", "w").write(t + head + "\nEvery change below is reported by the quick check of its property (demo: exit 0 without, non-zero with the change).\n\n"
    "| id | property | file | what it breaks | needs |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n\n" + extra)
