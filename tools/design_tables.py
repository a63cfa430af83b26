#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| change | property | what it needs to show |\n|---|---|---|")
for s in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, s, "meta.json")))
    print("| %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/")))
