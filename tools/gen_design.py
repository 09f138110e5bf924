"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['needs']} | {m['property']} |")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(\|---\|---\|---\|\n)(?:SEEDTABLE|(?:\|.*\n?)*)", lambda k: k[1] + "\n".join(rows) + "\n", s, count=1)
open(V + "/DESIGN.md", "w").write(s)
