"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"], m.get("caught_by", m["property"])))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs")
s = s[:i] + "## Planted bugs and what catches them\n\nAll with the quick command and seed 1.\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
