#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = json.load(open(os.path.join(root, "tools/missed.json")))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), miss.get(d, "")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| bug | needs | missed at first; added |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s.startswith("| ", j):
    j = s.index("\n", j) + 1
s = s[:i] + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
