#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from what lies in seeded/."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
rows.sort()
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
t = "| caught by | change | needs | effect |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows), "planted bugs")
