#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not part of any check)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m.get("first", "caught")))
rows.sort()
t = "| property | planted bug | needs | result |\n|---|---|---|---|\n" + "".join("| %s | `%s` | %s | %s |\n" % r for r in rows)
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
open(p, "w").write(re.sub(r"(?s)<!-- table -->\n.*?<!-- /table -->", lambda _: "<!-- table -->\n" + t + "<!-- /table -->", s))
