#!/usr/bin/env python3
"""Regenerates corpus/*.txt from the specification (BTreeAlg), by TLC.

One line is one history reaching a tree shape: +g inserts at gap g, -p removes the item at position p.
`mK.txt': every shape of order K with at most N items (BFS, a shortest history each).
`mK_sim.txt': shapes met along random behaviours.
"""
import json, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(module, cfg, extra=()):
    with tempfile.TemporaryDirectory() as d:
        c = os.path.join(d, "x.cfg")
        open(c, "w").write(cfg)
        out = subprocess.run(["tlc", "-noGenerateSpecTE", "-config", c, "-workers", "1", "-metadir", d, *extra,
                              os.path.join(ROOT, "spec", module)], capture_output=True, text=True).stdout
    if "Error" in out:
        sys.exit(out[out.index('Error'):][:3000])
    for line in out.splitlines():
        if line.startswith('"{'):
            yield json.loads(json.loads(line))

def write(name, cases):
    seen, rows = set(), []
    for c in cases:
        row = " ".join(("+" if a else "-") + str(g) for a, g in c["hist"])
        if row not in seen:
            seen.add(row)
            rows.append((c["n"], len(c["hist"]), row))
    rows.sort(key=lambda r: r[:2])
    with open(os.path.join(ROOT, "corpus", name), "w") as f:
        for _, _, row in rows:
            f.write(row + "\n")
    print(name, len(rows))

cfg = open(os.path.join(ROOT, "spec", "emit.cfg")).read()
for m, n in ((4, 10), (5, 11), (6, 13), (8, 18)):
    write(f"m{m}.txt", run("BTreeAlg.tla", cfg.replace("M = 4", f"M = {m}").replace("N = 8", f"N = {n}")))
sim = open(os.path.join(ROOT, "spec", "sim.cfg")).read()
for m, period, num in ((4, 40, 8), (5, 50, 8), (6, 80, 8), (8, 160, 8)):
    c = sim.replace("M = 8", f"M = {m}").replace("Period = 100", f"Period = {period}").replace("Every = 25", f"Every = {period // 4 + 1}")
    write(f"m{m}_sim.txt", run("SimBTree.tla", c, ("-simulate", f"num={num}", "-depth", str(period * 12), "-seed", str(m))))
