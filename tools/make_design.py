"""Write the table of planted changes into DESIGN.md (section 5)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- planted: begin -->", "<!-- planted: end -->"
by = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
rows = [BEGIN, "", "| property | planted change (what it needs to show) |", "|---|---|"]
for p in sorted(by):
    rows.append(f"| {p} | " + "; ".join(f"`{i}` ({n})" for i, n in by[p]) + " |")
rows += ["", END]
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = s.replace("@@TABLE@@", BEGIN + END)
s = re.sub(re.escape(BEGIN) + ".*?" + re.escape(END), lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
