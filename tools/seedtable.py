"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a log of tools/tryseeds.py.

usage: seedtable.py LOG
"""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    w = l.split()
    if len(w) > 3:
        res[w[0]] = "%s (%s)" % (w[2], w[3])
rows = ["| planted bug | check | needs | quick run, 3 at a time |", "|---|---|---|---|"]
for sid in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(ROOT + "/seeded/%s/meta.json" % sid))
    rows.append("| %s | %s | %s | %s |" % (sid, m["property"], m["needs"].replace("|", "/"), res.get(sid, "?")))
p = ROOT + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
if a not in s:
    i = s.index("## 5. Planted bugs")
    j = s.find("\n## ", i + 5)
    j = len(s) if j < 0 else j + 1
    s = s[:j].rstrip("\n") + "\n\n" + a + b + "\n" + s[j:]
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
