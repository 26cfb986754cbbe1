#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{here}/DESIGN.md").read()
rows = []
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"].replace("|", "/")))
t = "| property | change | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
s = re.sub(r"\| property \| change \| needs \|\n\|---\|---\|---\|\n(\|.*\n)*", lambda _: t, s)
open(f"{here}/DESIGN.md", "w").write(s)
