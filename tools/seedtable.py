#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s: %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
if "@@TABLE@@" in s: s = s.replace("@@TABLE@@", "\n".join(rows))
else: s = re.sub(r"(\|---\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
