#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property for the code in /repo (see DESIGN.md).
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: no verdict."""
import argparse, collections, random
from engine import *
from plan import PLAN, jobs_for

SAMPLES = 3

def trim(line, n=400):
    return line if len(line) <= n else line[:n] + "..."

def write_replay(prop, job, cmdline, session, event, msg):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{prop}.json")
    rejected = session[event - 1] if event - 1 < len(session) else session[-1]
    json.dump({
        "property": prop,
        "job": {"key": job.key, "fam": job.fam, "args": job.args},
        "command": cmdline,
        "reason": msg or "no action of the specification explains the event",
        "rejected_event_number": event,
        "rejected_event": json.loads(rejected),
        "session": [json.loads(x) for x in session[:event]],
    }, open(path, "w"), indent=1)
    return path, rejected

def self_test(recs, work, seed, limit=400):
    """Sensitivity of the trace specification: recorded sessions with one observed value altered must all be
    rejected.  Returns (altered, how many of each field)."""
    rng = random.Random(seed)
    alters = collections.Counter()
    path = os.path.join(work, "altered.ndjson")
    allsess = [s for r in recs for s in r if len(s) > 2]
    rng.shuffle(allsess)
    total = 0
    with open(path, "w") as f:
        for s in allsess:
            if total >= limit:
                break
            if sum(map(len, s)) > 900_000:
                continue
            idx = list(range(1, len(s)))
            rng.shuffle(idx)
            many = max(1, min(20, limit // len(allsess), 900_000 // sum(map(len, s))))
            for i in idx[:6 * many]:
                ev = json.loads(s[i])
                m = alter(ev, rng, '"strict":true' in s[0])
                if m is None:
                    continue
                f.write("[" + ",".join(s[:i] + [json.dumps(m[1])]) + "]\n")
                alters[f"{ev['op']}.{m[0]}"] += 1
                total += 1
                many -= 1
                if many == 0:
                    break
    if total == 0:
        return 0, alters
    rc, out = tlc("trace_neg.cfg", "Trace.tla", work, "selftest", env={"TRACE": path}, workers=4, mem="4g")
    if rc is None:
        return 0, alters
    if rc == 12 and "NotExplained" in out:
        ss = re.findall(r"(?:session = |/\\ tr = )(\d+)", out)
        line = open(path).read().split("\n")[int(ss[-1]) - 1] if ss else ""
        raise CheckError("self-test: an altered recording was accepted: ..." + line[-1500:])
    if rc != 0 and "The behavior up to this point" not in out:
        raise CheckError(f"self-test: TLC failed (exit {rc}):\n{out[-2000:]}")
    return total, alters

# Fields whose value the specification determines (given the other fields of the event).
FIXED = {"n", "e", "f", "l", "s", "t", "o", "lo", "hi", "len", "rs", "count", "size", "ord", "tab", "st", "ok", "hit"}

OUTS = {"off": ("before", "value", "unwrap", "disp", "dbg"), "offpair": ("cmp", "eq", "ne", "max", "min"),
        "offint": ("ieq", "ine"), "addr": ("eq", "ne", "disp", "node", "off"),
        "item": ("eq", "ne", "cmp", "kcmp", "pair", "clone", "field", "asref", "into"), "pitem": ("eq",), "prim": ("b", "r", "d")}

def bump(v, rng):
    """Another value of the same kind."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return 1 - v if v in (0, 1) else v + 1
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, dict):
        k = rng.choice(sorted(v))
        return {**v, k: bump(v[k], rng)}
    if not v:
        return [424242]
    j = rng.randrange(len(v))
    return v[:j] + [bump(v[j], rng)] + v[j + 1:]

def alter(ev, rng, strict):
    op = ev["op"]
    if op in OUTS and ev.get("f") not in ("drop", "view", "forget", "new_leaf", "new_binary"):
        k = rng.choice([k for k in OUTS[op] if k in ev] or [None])
        return k and (k, {**ev, k: bump(ev[k], rng)})
    if op in OUTS:
        return None
    if op == "cost":
        return "calls", {**ev, "calls": ev["calls"] + 100000}
    if op == "par":
        j = rng.randrange(len(ev["evs"]))
        return "evs", {**ev, "evs": ev["evs"][:j] + ev["evs"][j + 1:] + [{"op": "noop", "h": 77}]}
    if op == "validate_below":
        if not ev["rows"]:
            return None
        j = rng.randrange(len(ev["rows"]))
        row = list(ev["rows"][j])
        row[5] = 1 - row[5]
        return "rows", {**ev, "rows": ev["rows"][:j] + [row] + ev["rows"][j + 1:]}
    if op == "markers":
        j = rng.randrange(len(ev["rows"]))
        row = ev["rows"][j]
        if row[0] not in ("tree", "into", "node") or row[1] != row[2]:
            return None
        k = rng.choice((3, 4))
        return "rows", {**ev, "rows": ev["rows"][:j] + [row[:k] + [1 - row[k]] + row[k + 1:]] + ev["rows"][j + 1:]}
    if op == "threads":
        j = rng.randrange(len(ev["rows"]))
        row = list(ev["rows"][j])
        if rng.random() < 0.4 or not row[3]:
            row[4] += 1
            f = "d"
        else:
            i = rng.randrange(len(row[3]))
            w = row[3][i]
            if w[0] == "len":
                w = [w[0], w[1] + 1, w[2]]
            else:
                w = [w[0], w[1], w[2][:-1] if w[2] else [[0, 0]]]
            row[3] = row[3][:i] + [w] + row[3][i + 1:]
            f = w[0]
        return f, {**ev, "rows": ev["rows"][:j] + [row] + ev["rows"][j + 1:]}
    if op == "units":
        j, k = rng.randrange(len(ev["rows"])), rng.choice((3, 4, 5, 6))
        row = list(ev["rows"][j])
        row[k] += 1
        return "rows", {**ev, "rows": ev["rows"][:j] + [row] + ev["rows"][j + 1:]}
    if op in ("given", "begin", "clear_p", "insert_lax", "remove_lax", "clone", "clone_p", "a_given"):
        return None
    if op == "mass":
        ks = [k for k in ev if k in ("len", "e", "f", "l", "fm", "lm", "up", "down")]
    else:
        ks = [k for k in ev if k in FIXED]
    if "r" in ev and op in ("insert", "remove", "get", "getm", "next", "back", "remove_at", "replace_at", "firstm", "lastm"):
        ks.append("r")
    if "d" in ev:
        ks.append("d")
    if "g" in ev and "ri" in ev:
        ks.append("ri")
    rng.shuffle(ks)
    for k in ks:
        v = ev[k]
        if isinstance(v, bool):
            ev[k] = not v
        elif isinstance(v, int):
            ev[k] = v + 1
        elif op == "mass" and v:
            v[0] += 1
        elif k in ("r", "f", "l", "fm", "lm"):
            ev[k] = [] if v else [[1, 999999, 0]]
        elif k == "d":
            ev[k] = v + [999998]
        elif k == "s":
            ev[k] = v[:-1] if v else [[1, 999999, 0]]
        elif k == "t" and v:
            # for the validator, and where nothing is known of the shape, the structure is what is given
            n = rng.randrange(len(v))
            if op in ("validate", "validate_below") or not v[n]["i"] and not strict:
                continue
            if strict and rng.randrange(3) == 0 or not v[n]["i"]:
                v[n]["p"] += 77
            elif len(v) == 1:
                v[n]["i"].pop()
            else:
                v[n]["i"][rng.randrange(len(v[n]["i"]))][1] += 100000
        elif k == "o" and v:
            t = v[0][1]
            if not t:
                continue
            t[0]["i"][0][1] += 100000
        elif k == "rs" and v:
            j = rng.randrange(len(v))
            v[j] = [] if v[j] else [[1, 999999, 0]]
        elif k == "ord" and len(v) > 1:
            v.reverse()
        elif k == "tab" and v:
            row = v[rng.randrange(len(v))]
            col = rng.choice([2, 3, 4, 5, 7])
            row[col] = [] if row[col] else [1, 0]
        elif k == "st" and v:
            v.pop(rng.randrange(len(v)))
        elif k == "ri" and v:
            v[0] += 500000
        else:
            continue
        return k, ev
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--timing", action="store_true")
    ap.add_argument("--selftest", type=int, default=0, help="alter so many recordings, all of which must be rejected")
    a = ap.parse_args()
    prop, tier, seed = a.property, ("thorough" if a.tier == "thorough" else "quick"), abs(a.seed) % 100000
    t0 = time.time()
    plan = PLAN[prop]
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    work = tempfile.mkdtemp(prefix=f"raw-btree-{prop}-")
    try:
        return run(prop, tier, seed, plan, evidence, work, t0, a)
    except CheckError as e:
        say(f"ERROR property={prop}: {e}")
        return 2
    finally:
        stop_all()
        shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, plan, evidence, work, t0, args):
    if args.replay:
        j = json.load(open(args.replay))["job"]
        jobs = [Job(j["key"], j["fam"], **j["args"])]
    else:
        jobs = jobs_for(prop, tier, seed)
    models = [] if args.replay else plan["models"][tier]

    with cf.ThreadPoolExecutor(max(len(models), 1)) as mpool, cf.ThreadPoolExecutor(CORES) as pool:
        # The specification itself, while the harness builds.
        mc = [(m, mpool.submit(model, m[0], m[1], work, 4 if tier == "thorough" else 2,
                               tuple(m[2]) if len(m) > 2 else (), "6g" if tier == "thorough" else "3g")) for m in models]
        exes = build([j.key for j in jobs])
        t1 = time.time()
        jobs = [j for j in jobs if j.key in exes]
        try:
            recs = list(pool.map(lambda x: record(x[1], exes[x[1].key], work, x[0]), enumerate(jobs)))
            for j, r in zip(jobs, recs):
                if not r:
                    raise CheckError(f"nothing recorded by {j.name()}")
            t2 = time.time()
            total = sum(len(l) for r in recs for s in r for l in s)
            limit = max(300_000, min(6_000_000, total // (2 * CORES) + 1))
            chunks = write_chunks(recs, work, limit)
            bad, tgen, tdist = None, 0, 0
            # A session that ended in a crash or an unexpected panic is looked at first.
            def urgent(c):
                return 0 if any('"px":' in recs[ji][si][-1] for ji, si in c.sessions) else 1
            order = sorted(range(len(chunks)), key=lambda i: (urgent(chunks[i]), -os.path.getsize(chunks[i].path)))
            futs = {pool.submit(validate, chunks[i], work, f"tr{i}"): i for i in order}
            for f in cf.as_completed(futs):
                rej, (g, d) = f.result()
                tgen, tdist = tgen + g, tdist + d
                if rej and bad is None:
                    c = chunks[futs[f]]
                    ji, si = c.sessions[rej[0]]
                    bad = (jobs[ji], recs[ji][si], rej[1], rej[2])
                    stop_all()
            t3 = time.time()
            ops = collections.Counter()
            for r in recs:
                for s in r:
                    for l in s[1:]:
                        m = OP.match(l)
                        ops[m[1] if m else "?"] += 1
            neg = (0, {})
            if bad is None and not args.replay:
                missing = [o for o in plan["ops"] if ops[o] == 0]
                if missing:
                    raise CheckError(f"the recordings exercise no {missing}")
                if tier == "thorough" or args.selftest:
                    neg = self_test(recs, work, seed, args.selftest or 3000)
            mcs = {}
            for m, fu in mc:
                r = fu.result()
                if r is not None:
                    mcs[m[0]] = {"module": m[1], "states_generated": r[0], "distinct_states": r[1]}
        except BaseException:
            stop_all()
            raise
    nsess = sum(len(r) for r in recs)
    nev = sum(ops.values())
    rng = random.Random(seed)
    samples = []
    for j, r in rng.sample(list(zip(jobs, recs)), min(SAMPLES, len(jobs))):
        s = r[rng.randrange(len(r))]
        samples.append({"job": j.name(), "events": [trim(x) for x in s[:4]], "length": len(s)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct_states"] for m in mcs.values()) + tdist,
            "transitions": sum(m["states_generated"] for m in mcs.values()) + tgen,
            "traces_validated_against_impl": nsess if bad is None else 0,
            "events_validated": nev,
            "events_by_operation": dict(sorted(ops.items())),
            "design_models": mcs,
            "orders": sorted({j.key for j in jobs}),
            "storages": sorted({x for j in jobs for x in str(j.args.get("st", "box")).split(",")}),
            "altered_recordings_rejected": neg[0],
            "altered_fields": dict(neg[1]),
            "samples": samples,
        },
        "assumptions": plan["assume"],
        "wall_s": round(time.time() - t0, 1),
        "violations": 0 if bad is None else 1,
    }
    if not args.replay:
        json.dump(ev, open(evidence, "w"), indent=1)
    if args.timing:
        say(f"build {t1-t0:.1f} record {t2-t1:.1f} validate {t3-t2:.1f} total {time.time()-t0:.1f}; {total/1e6:.1f} MB in {len(chunks)} chunks")
    if bad:
        job, session, event, msg = bad
        path, rejected = write_replay(prop, job, " ".join(job.cmd("drv", "OUT")), session, event, msg)
        say(f"{job.name()}\nsession {trim(session[0])}\nrejected event {event}: {trim(rejected, 1500)}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    say(f"property={prop} held: {nsess} recorded sessions ({nev} events) explained by the specification; "
        f"design models: {', '.join(mcs) or 'none'}; {ev['wall_s']} s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
