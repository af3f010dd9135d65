"""Development: rewrite the table of planted changes in DESIGN.md from the output of catch.py (arguments: its logs)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (\S+) (\d+)s", l)
        if m:
            res[m[1]] = (m[2], m[3], m[4])
LATE = set(open(HERE + "/tools/missed_first.txt").read().split())
rows = []
for i in sorted(os.listdir(HERE + "/seeded"), key=lambda i: (json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"], i)):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    r = res.get(i, (m["property"], "not run", "0"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {r[1]}{' (missed at first, check strengthened)' if i in LATE else ''} |")
table = "\n".join(["<!-- seeded -->", "| change | property and check | needs | result |", "|----|----|----|----|"] + rows + ["<!-- /seeded -->"])
p = HERE + "/DESIGN.md"
s = open(p).read()
if "<!-- seeded -->" in s:
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: table, s, flags=re.S)
else:
    s = s.replace("SEEDED-TABLE", table)
open(p, "w").write(s)
print(len(rows), "rows;", sum(r[1] == "caught" for r in res.values()), "caught; without result:", [i for i in os.listdir(HERE + "/seeded") if i not in res])
