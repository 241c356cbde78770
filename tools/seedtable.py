#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: s.replace("|", "/")
    print(f"| {f.split('/')[-2]} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
