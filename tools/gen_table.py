#!/usr/bin/env python3
"""Development: fills section 7 of DESIGN.md from seeded/*/meta.json and the output of try_seeded.py (-a or not) in a file."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) >= 3 and w[2] == "caught":
            caught.setdefault(w[0], set()).add(w[1])
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/")):
    n = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append(f"| `{n}` | {m['property']} | {' '.join(m['needs'].split())} | {', '.join(sorted(caught.get(n, {'-'})))} |")
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
