#!/opt/venv/bin/python
"""Development tool: rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(f"{V}/seeded")):
    p = json.load(open(f"{V}/seeded/{d}/meta.json"))["property"]
    rows.setdefault(p, []).append(d.split("-", 1)[1] if d.lower().startswith(p.lower()) else d)
n = sum(map(len, rows.values()))
t = "| check | catches |\n|---|---|\n" + "".join(f"| {p} | {', '.join(rows[p])} |\n" for p in sorted(rows))
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"\| check \| catches \|\n(\|.*\n)+", lambda m: t, s)
s = re.sub(r"\b\d+ planted bugs", f"{n} planted bugs", s)
f = len([x for x in json.load(open(f"{V}/known_findings.json"))["fixed"]])
s = re.sub(r'\b\d+ "fixed" entries', f'{f} "fixed" entries', s)
open(f"{V}/DESIGN.md", "w").write(s)
print(n, f)
