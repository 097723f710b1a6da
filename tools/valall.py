#!/usr/bin/env python3
"""Development: every family on the current tree, over all orders and storages; reports the first rejection of each job."""
import sys, os, json, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import *
fams = sys.argv[1].split(",") if len(sys.argv) > 1 else []
orders = sys.argv[2].split(",") if len(sys.argv) > 2 else ["8", "4", "5", "6"]
sts = sys.argv[3] if len(sys.argv) > 3 else "box,fresh,slab,pool,pool-reuse"
obs = int(sys.argv[4]) if len(sys.argv) > 4 else 511
step = int(sys.argv[5]) if len(sys.argv) > 5 else 40
n = int(sys.argv[6]) if len(sys.argv) > 6 else 60
seed = int(sys.argv[7]) if len(sys.argv) > 7 else 1
exes = build(orders)
work = tempfile.mkdtemp(prefix="valall")
def run(a):
    k, f = a
    t0 = time.time()
    r = []
    for c in ("", "_sim"):
        if c and f in ("tamper", "lax", "faults", "cost", "par", "prim", "values", "keyed", "grow", "prand", "vrand", "laxrand", "own"): continue
        j = Job(k, f, seed=seed, n=n, count=5, obs=obs, every=int(os.environ.get("EVERY","1")), corpus=f"m{k}{c}.txt", step=step * (2 if c else 3), frm=3, hi=40, st=sts)
        r.append(record(j, exes[k], work, f"{k}{f}{c}"))
    t1 = time.time()
    ss = [s for x in r for s in x]
    w = os.path.join(work, k + f); os.makedirs(w)
    ch = write_chunks([ss], w, 6_000_000)
    bad = None; nb = 0
    for i, c in enumerate(ch):
        nb += os.path.getsize(c.path)
        bad, _ = validate(c, w, f"c{i}")
        if bad: break
    n_ev = sum(map(len, ss))
    line = f"{k} {f}: {len(ss)} sessions {n_ev} events {nb/1e6:.1f}MB rec {t1-t0:.1f}s tlc {time.time()-t1:.1f}s"
    if bad:
        s = ss[c.sessions[bad[0]][1]]
        e = bad[1]
        line += f"\n   REJECTED {bad[2]} event {e}/{len(s)}: begin={s[0]}\n   prev={s[e-2][:1500]}\n   ev={(s[e-1] if e<=len(s) else '?')[:3000]}"
    say(line)
with cf.ThreadPoolExecutor(7) as ex:
    list(ex.map(run, [(k, f) for f in fams for k in exes if k in orders]))
shutil.rmtree(work)
