#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/" + d + "/meta.json"))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
s = open(here + "/DESIGN.md").read().split("<!-- SEEDS -->")[0] + "<!-- SEEDS -->\n| caught by | planted bug | needs | breaks |\n|---|---|---|---|\n"
s += "".join("| %s | %s | %s | %s |\n" % tuple(str(x).replace("|", "\\|") for x in r) for r in sorted(rows))
open(here + "/DESIGN.md", "w").write(s)
