#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md"""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
t = a + "| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
i, j = s.index(a), s.index(b) + len(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows))
