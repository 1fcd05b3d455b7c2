#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seen.txt (output of `mutate.py seeds`)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
p = ROOT + "/tools/seen.txt"
if os.path.exists(p):
    for l in open(p):
        f = l.split()
        if f: seen[f[0]] = f[1:]
rows = []
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    rows.append((m["property"], b, m["needs"], " ".join(x for x in seen.get(b, []) if x != m["property"] and "?" not in x)))
rows.sort()
t = "| property | change | what it needs | also seen by |\n|---|---|---|---|\n" + "".join("| %s | `%s` | %s | %s |\n" % r for r in rows)
d = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
d = d[:d.index(a) + len(a)] + t + d[d.index(b):]
open(ROOT + "/DESIGN.md", "w").write(d)
