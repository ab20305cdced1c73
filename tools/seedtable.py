#!/usr/bin/env python3
"""Prints the table of planted bugs (seeded/*/meta.json) for DESIGN.md, grouped by property."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
by = {}
for i in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, i, "meta.json")))
    by.setdefault(m["property"], []).append(i[len(m["property"]) + 1:] + (f" (+{m['also']})" if "also" in m else ""))
for p in sorted(by):
    print(f"| {p} | {len(by[p])} | {', '.join(by[p])} |")
