#!/usr/bin/env python3
"""Regenerates the generated part of DESIGN.md: properties and planted bugs."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
exec(open(here + "/claims.py").read())
how = json.load(open(here + "/how.json"))
caught = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
out = []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in CLAIMS:
        out.append(how.get(i, CLAIMS[i][1]) + "\n")
    else:
        out.append("Not applicable: " + NA.get(i, "check under construction") + "\n")
out.append("## Planted bugs\n")
out.append("| bug | property | needs | result of the property's check |\n|---|---|---|---|")
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, 'not run')} |")
s = open(root + "/DESIGN.md").read()
mark = "<!-- generated -->\n"
s = s.split(mark)[0] + mark + "\n" + "\n".join(out) + "\n"
open(root + "/DESIGN.md", "w").write(s)
