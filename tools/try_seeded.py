#!/usr/bin/env python3
"""Development: applies each planted bug to /repo, runs the check of its property (or those named), undoes it.
try_seeded.py [-a] [ids...]   -a: all checks, not only that of the property"""
import glob, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
for d in sorted(glob.glob(ROOT + "/seeded/*/")):
    name = os.path.basename(d[:-1])
    if args and name not in args:
        continue
    prop = json.load(open(d + "meta.json"))["property"]
    props = sorted(c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]) if "-a" in sys.argv else [prop]
    subprocess.run(["git", "-C", "/repo", "apply", d + "patch.diff"], check=True)
    try:
        for p in props:
            r = subprocess.run(["python3", ROOT + "/check.py", p], capture_output=True, text=True)
            bad = [l for l in r.stdout.splitlines() if l.startswith(("rejected", "VIOLATION", "ERROR"))]
            print(name, p, {0: "MISSED" if p == prop else "quiet", 1: "caught"}.get(r.returncode, f"exit {r.returncode}"),
                  " ".join(bad)[:160] if r.returncode else "", r.stderr[-300:], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
