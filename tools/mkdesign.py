#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md (between the SEEDS markers) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|----|----|----|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    by = m.get("caught_by", m["property"])
    rows.append(f"| {d} | {by} | {m['needs'].replace('|', '/')} |")
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- SEEDS -->.*<!-- /SEEDS -->", lambda _: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->", s, flags=re.S)
open(p, "w").write(s)
