#!/usr/bin/env python3
"""Rewrites the table of seeded changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MARK = "<!-- seeded changes: tools/gen_matrix.py -->"
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    n = " ".join(d["needs"].split()).replace("|", "\\|")
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], n))
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip("\n")
s += "\n\n" + MARK + "\n## 8. Seeded changes and the check that catches each (quick tier)\n\n| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows))
