#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"],
                                               m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                               m["property"]))
t = "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->\n", "\n<!-- /bugs -->"
s = s.replace("@@BUGS@@", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
