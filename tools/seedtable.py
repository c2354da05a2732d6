#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.txt (id result [note])."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(H, "tools/seed_results.txt")):
    w = l.split(None, 2)
    if w:
        res[w[0]] = (w[1], w[2].strip() if len(w) > 2 else "")
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    r, n = res.get(i, ("not run", ""))
    rows.append("| %s | %s | %s | %s%s |" % (i, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), r, " (%s)" % n if n else ""))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
