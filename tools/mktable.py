#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m.get("caught_by", m["property"])))
rows.sort()
p = root + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("## Planted bugs")]
t = "## Planted bugs\n`tools/trybug.py` reproduces this table: each change is applied to a scratch copy and the quick check of its property run on it.\n\n| planted change | what it breaks | caught by |\n|---|---|---|\n"
t += "".join(f"| {i} | {w} | {c} (quick) |\n" for _, i, w, c in rows)
open(p, "w").write(head + t)
