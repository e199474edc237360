#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
print("| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    print("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
