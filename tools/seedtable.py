#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    rows.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
t = "| caught by the check of | planted changes |\n|-|-|\n" + "".join(f"| {p} | {', '.join(i)} |\n" for p, i in sorted(rows.items()))
f = f"{V}/DESIGN.md"
s = open(f).read()
s = re.sub(r"@TABLE@\n|<!-- seeds -->\n.*?<!-- end -->\n", lambda _: f"<!-- seeds -->\n{t}<!-- end -->\n", s, flags=re.S)
open(f, "w").write(s)
