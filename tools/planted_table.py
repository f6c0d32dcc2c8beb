#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

here = os.path.dirname(os.path.abspath(__file__)) + "/.."
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
table = "<!-- planted -->\n| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
s = open(here + "/DESIGN.md").read()
s = s.replace("@@PLANTED@@", table) if "@@PLANTED@@" in s else re.sub(r"<!-- planted -->.*<!-- end -->", lambda _: table, s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
