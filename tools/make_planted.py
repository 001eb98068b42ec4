#!/usr/bin/env python3
"""Writes DESIGN.md's table of planted bugs from seeded/*/meta.json and tools/planted.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rec = json.load(open(os.path.join(V, "tools", "planted.json")))
rows = ["| bug | property | result | needs |", "|-----|----------|--------|-------|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = rec.get(i, {"outcome": "not rerun on this version", "sub": ""})
    rows.append(f"| {i} | {m['property']} | {r['outcome']} {r['sub']} | {m['needs'].replace('|', '/')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- planted -->"), s.index("<!-- /planted -->")
open(p, "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])
