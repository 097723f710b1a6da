"""What each check explores."""
from engine import Job

CONTENT, LEN, ENDS, DUMP, DROPS, STORE, OTHERS, VALID, STRICT = 1, 2, 4, 8, 16, 32, 64, 128, 256
ARENAS = "fresh,slab,pool,pool-reuse,moving,moving-pool"
ALL = "box," + ARENAS
# Shapes in each corpus (order -> small shapes, shapes along random behaviours).
SIZE = {"4": (1359, 157), "5": (2660, 172), "6": (1800, 168), "8": (4912, 176)}
ORDERS = ("4", "5", "6", "8")

REL = ("8r", "4r")       # without debug assertions
PLAIN = ("8p", "4p")     # items without a destructor

FEW = ("4", "8")

def base(o):
    return o.rstrip("rop")

def corp(fam, want, seed, orders=ORDERS, sim=None, lo=0, hi=1000, simhi=1000, **kw):
    """About `want' shapes of each order, and `sim' of the large ones, spread over the corpus; the seed shifts which."""
    js = []
    for o in orders:
        b = base(o)
        n = want[b] if isinstance(want, dict) else want
        if n:
            step = max(1, SIZE[b][0] // n)
            js.append(Job(o, fam, corpus=f"m{b}.txt", step=step, frm=seed % step, head=8, lo=lo, hi=hi, seed=seed, **kw))
        m = sim[b] if isinstance(sim, dict) else sim
        if m:
            step = max(1, SIZE[b][1] // m)
            js.append(Job(o, fam, corpus=f"m{b}_sim.txt", step=step, frm=seed % step, lo=lo, hi=simhi, seed=seed, **kw))
    return js

def rand(fam, n, count, seed, orders=ORDERS, **kw):
    return [Job(o, fam, n=n, count=count, seed=seed, **kw) for o in orders]

def W(a4, a5, a6, a8):
    return {"4": a4, "5": a5, "6": a6, "8": a8}

def jobs_for(prop, tier, seed):
    T = tier == "thorough"
    def q(a, b):
        return b if T else a
    k = q(1, 12)                      # scale of the shape samples
    w = lambda *x: W(*[y * k for y in x])
    r = lambda fam, n, count, **kw: rand(fam, n * q(1, 4), count * q(1, 5), seed, **kw)
    # large trees: n is the greatest size
    big = lambda n, count, **kw: rand("big", n * q(1, 2), count * q(1, 6), seed, **{"every": 12, **kw})

    # items without size, or large and strictly aligned
    def units(what, n, count):
        return [Job(o, "units", n=n, count=q(count, 8 * count), seed=seed, only=what) for o in ("4", "8", "8r")]

    # very large trees: n items and more
    def mass(n, what, orders=("8",), count=3, **kw):
        return rand("mass", n, q(count, 12), seed, orders, only=what, **kw) + (rand("mass", 5 * n, 3, seed, orders, only=what, **kw) if T else [])

    if prop == "C01":
        return (r("keyed", 700, 15, obs=0, st="box") + r("keyed", 400, 5, obs=0, st="slab,pool,pool-reuse,fresh", orders=("4", "8"))
                + r("keyed", 500, 5, obs=0, orders=REL + PLAIN)
                + corp("coarse", w(60, 40, 30, 40), seed, sim=w(6, 5, 4, 4), obs=CONTENT, only="get,insert,remove,getm")
                + r("crand", 300, 7, obs=CONTENT, every=10) + r("crand", 200, 3, obs=0, orders=REL + PLAIN)
                + r("grow", 120, 25, obs=0) + corp("steps", w(160, 80, 80, 50), seed, sim=w(10, 6, 5, 4), obs=0, only="insert,remove,get,getm,sweep")
                + big(2000, 10, obs=0, only="runs,gap,mixed,look") + mass(65500, "map", ("8", "4")) + mass(65500, "map", ("8r",), 1))
    if prop == "C02":
        o = CONTENT | LEN | ENDS
        return (r("keyed", 400, 8, obs=o, every=1) + r("grow", 60, 10, obs=o)
                + r("keyed", 300, 5, obs=o, every=1, orders=REL + PLAIN)
                + corp("steps", w(120, 50, 50, 30), seed, sim=w(6, 3, 3, 2), obs=o, only="insert,remove,getm,endm")
                + corp("psteps", w(60, 30, 25, 15), seed, obs=o, only="insert,remove,replace") + r("prand", 300, 3, obs=o, only="none")
                + corp("wholes", w(60, 40, 40, 60), seed, sim=w(20, 20, 20, 20), obs=o) + r("own", 300, 4, obs=o, st="box,slab")
                + r("keyed", 200, 2, obs=o, every=1, orders=FEW, st=ARENAS)
                + big(1000, 6, obs=o | DUMP, only="runs,gap,mixed,pos,end") + mass(65500, "len,ends,iter", ("8", "4"))
                + mass(65500, "len,ends,iter", ("8r", "8p"), 1) + units("tree", 250, 3))
    if prop == "C03":
        o = DUMP | STRICT
        return (r("keyed", 500, 5, obs=o, only="getm") + r("grow", 90, 8, obs=o)
                + r("keyed", 300, 5, obs=o, only="getm", orders=REL)
                + corp("steps", w(200, 90, 80, 60), seed, sim=w(12, 8, 6, 5), obs=o, only="insert,remove")
                + corp("psteps", w(80, 40, 30, 20), seed, sim=w(4, 3, 2, 1), obs=o, only="insert,remove,replace")
                + corp("psteps", w(20, 0, 0, 8), seed, obs=o, only="insert,remove", orders=REL)
                + r("prand", 300, 4, obs=o, only="none") + r("crand", 150, 4, obs=o)
                + r("keyed", 250, 2, obs=o, only="getm", orders=FEW, st=ARENAS) + r("grow", 60, 2, obs=o, orders=FEW, st=ARENAS)
                + corp("wholes", w(60, 40, 40, 60), seed, sim=w(20, 20, 20, 20), obs=o, only="clone,clear,forget")
                + big(1000, 8, obs=o, only="runs,gap,mixed,pos,end"))
    if prop == "C04":
        return [Job(o, "cost", n=q(1500, 6000), seed=seed) for o in ORDERS + ("8r",)] + [Job(o, "cost", n=q(300, 1500), seed=seed, st="slab,pool") for o in FEW]
    if prop == "C05":
        return (corp("iters", w(60, 40, 35, 35), seed, obs=0, only="iter,copy,mut,into", hi=14)
                + corp("iters", w(0, 0, 0, 0), seed, sim=w(15, 12, 10, 10), obs=0, only="iter,copy,mut,into")
                + corp("iters", 12 * k, seed, orders=("4", "8"), obs=0, only="iter,mut,into", st=ARENAS)
                + corp("iters", 12 * k, seed, orders=REL + PLAIN, sim=4 * k, obs=0, only="iter,copy,mut,into", hi=14)
                + corp("bulks", w(30, 20, 20, 25), seed, sim=w(6, 5, 5, 5), obs=0, only="iter,mut,into", count=1)
                + corp("bulks", 10 * k, seed, orders=REL + PLAIN, sim=2 * k, obs=0, only="iter,mut,into", count=1)
                + big(1000, 4, obs=0, only="runs,iter,mut,bulk,end") + mass(65500, "iter", ("8", "8r", "8p"), 2))
    if prop == "C06":
        o = DROPS
        return (r("own", 600, 12, obs=o) + corp("steps", w(150, 60, 60, 40), seed, sim=w(6, 4, 3, 3), obs=o, only="insert,remove")
                + corp("wholes", w(200, 200, 200, 300), seed, sim=w(40, 40, 40, 40), obs=o)
                + corp("iters", w(40, 30, 25, 25), seed, sim=w(8, 6, 5, 4), obs=o, only="into,partial")
                + corp("bulks", w(25, 20, 20, 25), seed, sim=w(5, 4, 4, 4), obs=o, only="into", count=1)
                + corp("psteps", w(60, 30, 25, 15), seed, obs=o, only="insert,remove,replace")
                + r("own", 300, 4, obs=o, orders=("4", "8"), st=ARENAS) + r("own", 300, 4, obs=o, orders=REL)
                + corp("wholes", 30 * k, seed, orders=REL, sim=10 * k, obs=o)
                + big(1000, 8, obs=o, only="runs,gap,mixed,end") + mass(65500, "drops,clone", ("8", "4"), 4) + units("tree", 250, 3))
    if prop == "C07":
        return (corp("psteps", w(300, 160, 130, 90), seed, sim=w(20, 14, 10, 8), obs=CONTENT | DUMP, only="insert")
                + r("prand", 500, 6, obs=DUMP | CONTENT, only="none")
                + corp("psteps", 30 * k, seed, orders=("4", "8"), obs=DUMP, only="insert", st=ARENAS)
                + corp("psteps", 20 * k, seed, orders=REL, obs=DUMP, only="insert")
                + big(600, 5, obs=DUMP, only="runs,pos"))
    if prop == "C08":
        return (corp("psteps", w(300, 160, 130, 90), seed, sim=w(20, 14, 10, 8), obs=DUMP | CONTENT, only="remove")
                + r("prand", 500, 6, obs=DUMP | CONTENT, only="none")
                + corp("psteps", 30 * k, seed, orders=("4", "8"), obs=DUMP, only="remove", st=ARENAS)
                + corp("psteps", 20 * k, seed, orders=REL, obs=DUMP, only="remove")
                + big(600, 5, obs=DUMP, only="runs,pos"))
    if prop == "C09":
        return (corp("nav", w(700, 500, 400, 400), seed, sim=w(60, 50, 40, 30), obs=0)
                + r("prand", 400, 6, obs=0, only="nav") + corp("nav", 60 * k, seed, orders=("4", "8"), obs=0, st=ARENAS)
                + corp("nav", 100 * k, seed, orders=REL, sim=10 * k, obs=0))
    if prop == "C10":
        return (corp("steps", w(700, 500, 400, 400), seed, sim=w(120, 100, 90, 80), obs=DUMP, only="get,addr")
                + corp("coarse", w(200, 120, 100, 120), seed, sim=w(30, 25, 20, 20), obs=DUMP, only="get,addr")
                + r("crand", 200, 7, obs=DUMP) + corp("coarse", 20 * k, seed, orders=REL, sim=4 * k, obs=DUMP, only="get,addr")
                + r("keyed", 500, 5, obs=DUMP, only="addr") + big(600, 6, obs=DUMP, only="runs,gap,look")
                + corp("steps", 40 * k, seed, sim=6 * k, obs=DUMP, only="get,addr", orders=FEW, st=ARENAS)
                + corp("steps", 100 * k, seed, orders=REL, sim=20 * k, obs=DUMP, only="get,addr"))
    if prop == "C11":
        o = CONTENT | LEN | DUMP | OTHERS | STRICT
        return (corp("indep", w(60, 50, 40, 60), seed, sim=w(12, 10, 8, 8), obs=o, n=40)
                + corp("indep", w(12, 0, 0, 12), seed, sim=w(3, 0, 0, 3), obs=o, n=40, st=ARENAS)
                + corp("indep", 8 * k, seed, orders=REL + PLAIN, obs=o, n=40)
                + corp("wholes", w(200, 150, 150, 250), seed, sim=w(60, 60, 50, 50), obs=o, only="clone")
                + big(1000, 6, obs=o, every=1000, only="runs,end") + mass(65500, "clone", ("8",), 1) + mass(65500, "clone", ("8",), 1, st="pool"))
    if prop == "C12":
        o = STORE
        both = ALL
        return (corp("steps", w(50, 25, 20, 16), seed, sim=w(3, 2, 2, 2), obs=o, only="insert,remove,getm", st=both)
                + corp("psteps", w(20, 12, 10, 7), seed, obs=o, only="insert,remove,replace", st=both)
                + corp("wholes", w(70, 50, 50, 80), seed, sim=w(16, 16, 16, 16), obs=o, st=both)
                + r("own", 400, 4, obs=o, st=both)
                + corp("indep", w(6, 5, 5, 6), seed, obs=o, n=30, st=both)
                + corp("iters", w(10, 8, 8, 8), seed, sim=w(2, 2, 2, 2), obs=o, only="into,partial", st=both)
                + corp("bulks", w(4, 3, 3, 4), seed, sim=w(1, 1, 1, 1), obs=o, only="into", count=1, st=both)
                + r("keyed", 300, 5, obs=o, every=1, st=both)
                + corp("reset", w(4, 3, 3, 4), seed, obs=o, n=20, st=both)
                + corp("wholes", 20 * k, seed, orders=REL + PLAIN, obs=o, st="box,pool")
                + r("own", 200, 4, obs=o, orders=REL + PLAIN, st="box,slab")
                + big(600, 3, obs=o, only="runs,gap,mixed,end", st="box,pool") + mass(65500, "nodes,clone", ("8",), 4, st="box,slab,pool"))
    if prop == "C13":
        o = DUMP | STRICT | CONTENT | LEN
        return (corp("lax", w(60, 40, 35, 35), seed, sim=w(4, 3, 3, 3), obs=o, count=4)
                + corp("lax", 8 * k, seed, orders=REL, obs=o, count=4)
                + corp("lax", 4 * k, seed, obs=o, count=3, orders=FEW, st=ARENAS)
                + r("laxrand", 500, 6, obs=o))
    if prop == "C14":
        return (corp("faults", w(60, 40, 35, 30), seed, sim=w(0, 0, 0, 0), obs=CONTENT | LEN)
                + corp("faults", w(0, 0, 0, 0), seed, sim=w(4, 3, 2, 2), simhi=40, obs=0)
                + corp("faults", 8 * k, seed, orders=("4", "8"), obs=CONTENT | LEN, st=ARENAS)
                + corp("faults", 8 * k, seed, orders=REL, obs=CONTENT | LEN))
    if prop == "C15":
        o = CONTENT
        return (corp("writes", w(60, 50, 40, 50), seed, sim=w(12, 10, 8, 8), obs=o | LEN, n=40)
                + corp("writes", 10 * k, seed, orders=REL + PLAIN, sim=2 * k, obs=o | LEN, n=40)
                + corp("steps", w(100, 60, 50, 40), seed, obs=o | DUMP, only="getm,endm")
                + corp("steps", 10 * k, seed, obs=o | DUMP, only="getm,endm", orders=FEW, st=ARENAS) + corp("writes", 6 * k, seed, obs=o | LEN, n=40, orders=FEW, st=ARENAS)
                + corp("psteps", w(100, 60, 50, 40), seed, sim=w(5, 4, 3, 3), obs=o, only="replace,write")
                + corp("iters", w(40, 30, 25, 25), seed, sim=w(8, 6, 5, 5), obs=o, only="mut")
                + corp("bulks", w(25, 20, 15, 20), seed, sim=w(4, 4, 4, 4), obs=o, only="mut", count=1)
                + big(600, 5, obs=o | DUMP, every=1000, only="runs,look,mut,pos,bulk"))
    if prop == "C16":
        return (corp("views", w(500, 400, 300, 400), seed, sim=w(60, 50, 40, 40), obs=DUMP, only="visit,views")
                + corp("views", 60 * k, seed, orders=REL, sim=8 * k, obs=DUMP, only="visit,views")
                + corp("views", 60 * k, seed, sim=12 * k, obs=DUMP, only="visit,views", orders=FEW, st=ARENAS)
                + r("vrand", 300, 4, obs=DUMP, every=6, only="visit,views"))
    if prop == "C17":
        return (corp("views", w(800, 700, 600, 800), seed, sim=w(140, 140, 140, 140), obs=DUMP, only="dot")
                + corp("views", w(60, 0, 0, 60), seed, sim=w(20, 0, 0, 20), obs=DUMP, only="dot", st=ARENAS)
                + corp("views", 100 * k, seed, orders=REL, sim=20 * k, obs=DUMP, only="dot")
                + r("vrand", 400, 6, obs=DUMP, every=2, only="dot"))
    if prop == "C18":
        return (corp("views", w(400, 400, 300, 400), seed, sim=w(100, 90, 80, 80), obs=0, only="validate")
                + r("vrand", 500, 5, obs=0, every=1, only="validate")
                + corp("tamper", w(70, 60, 50, 50), seed, sim=w(5, 4, 3, 3), obs=0)
                + corp("tamper", 5 * k, seed, sim=k, obs=0, orders=FEW, st=ARENAS) + corp("views", 30 * k, seed, sim=6 * k, obs=0, only="validate", orders=FEW, st=ARENAS)
                + r("keyed", 300, 5, obs=VALID, every=1, only="getm") + mass(65500, "valid", ("8", "4"), 1))
    if prop == "C19" or prop == "C20":
        js = [Job(o, "values", seed=seed + i) for o in ("4", "8") for i in range(q(2, 20))] + [Job("8r", "values", seed=seed + 50)]
        if prop == "C20":
            js += r("keyed", 300, 5, obs=CONTENT, only="getm")
        return js
    if prop == "C21":
        return [Job(o, "prim") for o in ORDERS + REL]
    if prop == "C22":
        return (corp("reset", w(40, 30, 25, 30), seed, sim=w(6, 5, 4, 4), obs=CONTENT | LEN | ENDS | STRICT, n=30)
                # a new tree owns no item and no node
                + corp("reset", w(8, 0, 0, 8), seed, sim=w(2, 0, 0, 2), obs=CONTENT | LEN | STRICT | DROPS | STORE, n=20, st=ALL)
                + mass(65500, "clear", ("8",), 2)
                + corp("reset", 8 * k, seed, orders=REL + PLAIN, sim=2 * k, obs=CONTENT | LEN | ENDS | STRICT, n=30))
    if prop == "C23":
        o = CONTENT | LEN | DUMP
        return (r("par", 250, 10, obs=o | DROPS) + r("par", 200, 5, obs=o | DROPS, orders=REL) + r("par", 200, 5, obs=o, orders=PLAIN))
    if prop == "C25":
        js = units("array", 250, 5)
        for i in range(q(1, 5)):
            js += [Job(o, "arrays", n=q(80, 150), count=q(6, 15), seed=seed + i) for o in ORDERS + REL]
            js += [Job(o, "arrays", n=q(80, 150), count=q(6, 15), seed=seed + i, only="calls,drain,bulk,histories") for o in PLAIN]
        return js
    if prop == "C26":
        return [Job(o, "threads", n=n, count=q(c, 8 * c), seed=seed) for o, n, c in (("8", 500, 10), ("4", 300, 10), ("8r", 500, 5), ("5", 300, 4), ("8", 1500, 1))]
    if prop == "C27":
        o = DUMP | DROPS | STORE | OTHERS | STRICT
        return (r("forest", 250, 12, obs=o, st="box") + r("forest", 200, 3, obs=o, st=ARENAS) + r("forest", 200, 6, obs=o, orders=REL)
                + r("forest", 200, 6, obs=DUMP | OTHERS | STRICT, orders=PLAIN)
                + corp("grafts", w(60, 40, 30, 30), seed, sim=w(5, 4, 3, 3), obs=o) + corp("grafts", w(10, 0, 0, 8), seed, obs=o, st=ARENAS, orders=FEW)
                + corp("grafts", 8 * k, seed, orders=REL, obs=o))
    if prop == "C28":
        o = CONTENT | LEN | ENDS | DUMP | DROPS | STRICT
        pools = "pool,pool-reuse,moving-pool"      # what gets out of reach stays there when they are dropped
        return (corp("full", w(30, 25, 20, 20), seed, sim=w(5, 4, 3, 3), obs=o, only="insert", st=pools)
                + corp("full", 8 * k, seed, orders=REL, sim=2 * k, obs=o, only="insert", st=pools)
                + corp("full", w(20, 15, 15, 15), seed, sim=w(3, 3, 2, 2), obs=o, only="clone", st=ARENAS)
                + r("forest", 300, 9, obs=DUMP | DROPS | OTHERS | STRICT, only="full", st=pools)
                + r("fullrand", 250, 9, obs=o, st=pools) + r("fullrand", 250, 3, obs=o, st=pools, orders=REL))
    raise KeyError(prop)

# ---- design models --------------------------------------------------------------

KEYED = ("mc_sys_keyed_quick.cfg", "MCRawBTree.tla")
KEYED_T = ("mc_sys_keyed.cfg", "MCRawBTree.tla")
COARSE = ("mc_sys_coarse_quick.cfg", "MCRawBTree.tla")
COARSE_T = ("mc_sys_coarse.cfg", "MCRawBTree.tla")
POS = ("mc_sys_pos_quick.cfg", "MCRawBTree.tla")
POS_T = ("mc_sys_pos.cfg", "MCRawBTree.tla")
ALG = ("mc_quick.cfg", "BTreeAlg.tla")
ALG_T = [("mc.cfg", "BTreeAlg.tla")]
ARRAY = ("mc_array_quick.cfg", "MCItemArray.tla")
ARRAY_T = ("mc_array.cfg", "MCItemArray.tla")
NODES = ("mc_nodes.cfg", "NodeSteps.tla")
NODES_T = ("mc_nodes_t.cfg", "NodeSteps.tla")
VALS = ("mc_values.cfg", "MCValues.tla")
FOREST = ("mc_forest.cfg", "Forest.tla")
FOREST_T = ("mc_forest_t.cfg", "Forest.tla")
FULL = ("mc_full.cfg", "Full.tla")
FULL_T = ("mc_full_t.cfg", "Full.tla")
THR = ("mc_threads.cfg", "MCThreads.tla")
VIEW = ("mc_views.cfg", "AlgViews.tla")

ORD = ("mc_orders.cfg", "MCOrders.tla")

def both(a, b=None):
    return {"quick": [a], "thorough": [a] + ([b] if b else [])}

def plus(x, y):
    return {t: x[t] + y[t] for t in x}

TRUST = ["TLC, the Rust toolchain, and the harness's recording of calls, results and node accessors",
         "trees built by the harness's own storages and the crate's BoxStorage are representative of all lawful storages"]
BOUND = "executions explored are samples: shapes from the bounded corpora of the specification (orders 4, 5, 6 and 8) and seeded random histories"

def P(models, ops, *assume, **kw):
    return dict(models=models, ops=ops, assume=[BOUND] + TRUST + list(assume), **kw)

HOOK = "orders 4 to 6 are the same code with a smaller M (cfg raw_btree_order)"

PLAN = {
    "C01": P(plus(both(KEYED, KEYED_T), both(COARSE, COARSE_T)),
             ["insert", "remove", "get", "getm", "gets", "insert_c", "remove_c", "get_c", "getm_c"], HOOK),
    "C02": P(both(KEYED, KEYED_T), ["insert", "remove", "remove_at", "insert_at", "clone", "clear", "forget", "getm", "lastm", "firstm", "idrop", "units"], HOOK),
    "C03": P(plus(both(ALG, ALG_T[0]), both(ORD)), ["insert", "remove", "insert_at", "remove_at", "clone"], HOOK),
    "C04": P(both(VIEW), ["cost"], HOOK),
    "C05": P(both(POS, POS_T), ["iter", "copy", "next", "back", "idrop", "bulk", "ileak"], HOOK),
    "C06": P(both(POS, POS_T), ["insert", "remove", "drop", "clear", "forget", "idrop", "clone", "clone_into", "replace_at", "insert_refused", "bulk", "ileak", "units"], HOOK),
    "C07": P(both(ALG, ALG_T[0]), ["insert_at", "insert_ex", "insert_refused"], HOOK),
    "C08": P(both(ALG, ALG_T[0]), ["remove_at", "insert_at"], HOOK),
    "C09": P(both(ALG, ALG_T[0]), ["nav"], HOOK),
    "C10": P(plus(both(VIEW), both(COARSE, COARSE_T)), ["addr_of", "gets", "addr_of_c", "get_c"], HOOK),
    "C11": P(both(POS, POS_T), ["clone", "clone_into", "insert", "remove", "clear", "drop", "write_at"], HOOK),
    "C12": P(both(ALG, ALG_T[0]), ["insert", "remove", "clear", "forget", "drop", "idrop", "clone", "clone_into", "insert_at", "remove_at", "bulk"], HOOK),
    "C13": P(both(POS, POS_T), ["insert_lax", "remove_lax", "get_lax", "insert_p", "read_p"], HOOK),
    "C14": P(both(POS, POS_T), ["clear_p", "drop_p", "idrop_p", "clone_p", "clone_into_p"], HOOK),
    "C15": P(both(KEYED, KEYED_T), ["getm", "firstm", "lastm", "write_at", "replace_at", "late", "bulk"], HOOK),
    "C16": P(both(VIEW), ["visit", "visit_below", "visit_cut", "views"], HOOK),
    "C17": P(both(VIEW), ["dot", "dotcut"], HOOK),
    "C18": P(both(VIEW), ["validate", "validate_below"], HOOK),
    "C19": P(both(VALS), ["off", "offpair", "offint", "addr"]),
    "C20": P(plus(both(VALS), both(KEYED)), ["item", "pitem", "insert"]),
    "C21": P(both(NODES, NODES_T), ["prim"], HOOK),
    "C22": P(both(KEYED, KEYED_T), ["fresh", "clear", "forget", "insert", "remove"], HOOK),
    "C25": P(both(ARRAY, ARRAY_T), ["a_push", "a_insert", "a_pop", "a_remove", "a_append", "a_extend", "a_extend_p", "clone_into_p", "a_collect", "a_parts", "a_write",
                                    "a_drain", "a_dleak", "a_ddrop_p", "clear", "clear_p", "clone", "clone_p", "drop", "idrop", "bulk", "units"], HOOK),
    "C26": P(both(THR), ["markers", "threads"], "interleavings of threads are whatever the machine produces"),
    "C27": P(plus(both(FOREST, FOREST_T), both(POS)), ["graft", "burst", "build", "insert", "remove_at", "insert_at", "insert_ex", "replace_at", "write_at", "remove_end",
                                      "get", "addr_below", "drop"], HOOK),
    "C28": P(plus(both(FULL, FULL_T), both(KEYED, POS_T)), ["insert_f", "insert_at_f", "insert_ex_f", "clone_p", "clone_into_p", "insert", "remove", "drop", "clear",
                                      "iter", "next", "back", "idrop"], HOOK),
    "C23": P(both(KEYED, KEYED_T), ["par"], HOOK),
}
