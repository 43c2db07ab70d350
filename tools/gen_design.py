#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m.get("caught_by", m["property"]), m["needs"].replace("|", "\\|")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda m: table, s) if "<!-- seeds -->" in s else s.replace("SEEDS\n", table + "\n")
open(p, "w").write(s)
