"""Development: rewrite the table of spaces in DESIGN.md from the output of quick runs.

usage: gen_spaces.py LOGDIR   (files clean.Cxx*.log, as vcheck leaves them, or any file with the output of check.py)
"""
import glob
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(sys.argv[1] + "/clean*.log")):
    t = open(f, errors="replace").read()
    m = re.search(r"^(C\d\d) quick: states=(\d+) transitions=(\d+) traces=(\d+) wall=([\d.]+)s", t, re.M)
    if not m:
        continue
    sp = re.findall(r"^\s+(.+?): states=(\d+) transitions=\d+ traces=(\d+) skipped=(\d+)", t, re.M)
    rows.append(f"| {m[1]} | " + "; ".join(f"{n} ({tr})" for n, st, tr, sk in sp) + f" | {m[2]} | {m[4]} | {float(m[5]):.0f} s |")
table = ["<!-- spaces -->", "| id | spaces (traces executed) | states | traces | wall |", "|----|----|----|----|----|"] + rows + ["<!-- /spaces -->"]
p = HERE + "/DESIGN.md"
s = open(p).read()
new = "\n".join(table)
if "<!-- spaces -->" in s:
    s = re.sub(r"<!-- spaces -->.*<!-- /spaces -->", lambda m: new, s, flags=re.S)
else:
    s = s.replace("SPACES-TABLE", new)
open(p, "w").write(s)
print(len(rows), "rows")
