#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| Planted bug | Caught by | Needs | Breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*?(?=\n\| Escaped)", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n", s, flags=re.S)
open("DESIGN.md", "w").write(s)
