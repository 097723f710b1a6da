#!/usr/bin/env python3
"""Development: token mutants of the sources, in scratch copies under /tmp/mv.  A mutant that compiles and passes the
tests should give some recording that is rejected.  mutants.py OUT [file regex] [part/parts]"""
import multiprocessing.pool, multiprocessing as mp, sys, os, re, json, hashlib, subprocess, shutil, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import engine, plan
from engine import Job, record, write_chunks, validate
BASE = "/tmp/mv"
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![-=<>])<(?![=<A-Za-z'&(*?_\[])", ["<="]), (r"(?<=\s)>(?=\s)", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"\s\+ 1\b", [""]), (r"\s- 1\b", [""]), (r"&&", ["||"]), (r"\|\|(?! \{)(?=\s)", ["&&"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["3", "1"]), (r"\bM\b", ["(M - 1)"]),
       (r"is_some\(", ["is_none("]), (r"is_none\(", ["is_some("]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\bEqual\b", ["Less"]),
       (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"_left\b", ["_right"]), (r"_right\b", ["_left"]), (r"\bfirst_", ["last_"]), (r"\blast_", ["first_"]),
       (r"\bfront\b", ["back"]), (r"\bback\b", ["front"]), (r"next_(?=item|back)", ["previous_"]), (r"previous_", ["next_"]), (r"\.rev\(\)", [""]),
       (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bif [^{]+ \{$", ["if true {", "if false {"]), (r"\bwhile [^{]+ \{$", ["while false {"]),
       (r"\bincr\(", ["decr("]), (r"\bdecr\(", ["incr("]), (r"Some\((\w+)\)(?=[,)])", ["None"]), (r"\.\.=", [".."])]
def mutants(pat):
    r = []
    for d, _, fs in os.walk(BASE + "/base/repo/src"):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, BASE + "/base/repo")
            if not f.endswith(".rs") or not re.search(pat, rel): continue
            lines = open(p).read().split("\n")
            for i, l in enumerate(lines):
                s = l.strip()
                if "cfg(test)" in s: break
                if s.startswith(("//", "#[", "use ", "pub use", "impl", "unsafe impl", "///", "*", "pub struct", "mod ", "pub mod", "type ")): continue
                if re.match(r"(pub )?(unsafe )?(const )?(unsafe )?fn ", s): continue
                code = l.split("//")[0]
                for a, bs in OPS:
                    for m in re.finditer(a, code):
                        for b in bs:
                            r.append((rel, i, l[:m.start()] + b + l[m.end():]))
                if s.endswith(";") and not s.startswith(("let", "return", "break", "continue", "}", ")")) and s.count("(") == s.count(")"):
                    r.append((rel, i, ""))
    seen, out = set(), []
    for x in r:
        if x not in seen:
            seen.add(x); out.append(x)
    return out
JOBS = None
def jobs():
    js, seen = [], set()
    for p in plan.PLAN:
        if p in ("C26", "C04"): continue
        for j in plan.jobs_for(p, "quick", 1):
            if j.key not in ("4", "8", "4r"): continue
            if j.fam in ("mass", "par", "threads"): continue
            a = dict(j.args)
            if j.key != "4" and "step" in a: a["step"] *= 3
            if "st" in a:
                a["st"] = ",".join(x for x in a["st"].split(",") if x in ("box", "pool", "moving")) or "pool"
            k = Job(j.key, j.fam, **a)
            if k.name() not in seen:
                seen.add(k.name()); js.append(k)
    js.sort(key=lambda j: (j.key != "4", j.fam not in ("prim", "own", "keyed", "arrays", "values", "nav", "views", "psteps")))
    return js
def setup(w):
    d = f"{BASE}/{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    subprocess.run(f"cp /repo/Cargo.lock {d}/repo/ 2>/dev/null; cp -a {ROOT}/harness {d}/harness; rm -rf {d}/harness/target; sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/harness/Cargo.toml; sed -i -E '/\"(fresh|slab|pool-reuse|moving-pool|par|threads)\" =>/d' {d}/harness/src/main.rs", shell=True)
    return d
def compile(d, key):
    env = engine.cargo_env()
    env["CARGO_TARGET_DIR"] = f"{d}/t{key}"
    if key[0] != "8":
        env["RUSTFLAGS"] = "--cfg raw_btree_order"; env["RAW_BTREE_ORDER"] = key[0]
    cmd = ["cargo", "build", "--offline", "--quiet", "-j2", "--manifest-path", d + "/harness/Cargo.toml"] + (["--release"] if "r" in key else [])
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    return f"{d}/t{key}/{'release' if 'r' in key else 'debug'}/drv" if r.returncode == 0 else None
def rec(j, exe, d):
    r = record(j, exe, d, "x", cpu=15)
    return r, hashlib.sha1(json.dumps(r).encode()).hexdigest()
def work(a):
    w, ms, base, out = a
    d = setup(f"w{w}")
    js = jobs()
    for rel, i, new in ms:
        p = f"{d}/repo/{rel}"
        src = open(p).read()
        lines = src.split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        res = None
        try:
            env = engine.cargo_env(); env["CARGO_TARGET_DIR"] = d + "/test"
            try:
                t = subprocess.run(["cargo", "test", "--offline", "-q", "-j2", "--manifest-path", d + "/repo/Cargo.toml"], env=env, capture_output=True, text=True, timeout=120,
                                   preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (4 << 30, 4 << 30)))
                res = None if t.returncode == 0 else "nobuild" if "could not compile" in t.stderr else "tests"
            except subprocess.TimeoutExpired:
                res = "tests"
            if res is None:
                exes = {"4": compile(d, "4")}
                if None in exes.values(): res = "nobuild"
            diffs = 0
            if res is None:
                for j in js:
                    if j.key not in exes: exes[j.key] = compile(d, j.key)
                    r, h = rec(j, exes[j.key], d)
                    if h == base[j.name()]: continue
                    diffs += 1
                    ch = write_chunks([r], d, 10**9)
                    for c in ch:
                        b, _ = validate(c, d, "v")
                        os.unlink(c.path)
                        if b: res = "caught " + j.name(); break
                    if res or diffs > 12: break
                if res is None: res = f"ALIVE diffs={diffs}"
        except Exception as e:
            res = "error " + repr(e)[:200]
        open(p, "w").write(src)
        with open(out, "a") as f:
            f.write(json.dumps([res, rel, i + 1, old.strip(), new.strip()]) + "\n")
def main():
    out = sys.argv[1]
    d = setup("base")
    ms = mutants(sys.argv[2] if len(sys.argv) > 2 else ".")
    random.Random(7).shuffle(ms)
    if len(sys.argv) > 3:
        a, b = map(int, sys.argv[3].split("/")); ms = ms[a::b]
    done = {tuple(json.loads(l)[1:]) for l in open(out)} if os.path.exists(out) else set()
    ms = [m for m in ms if not any(x[0] == m[0] and x[1] == m[1] + 1 and x[3] == m[2].strip() for x in done)]
    N = int(os.environ.get("W", "7"))
    print(len(ms), "mutants", len(jobs()), "jobs", flush=True)
    if os.environ.get("DRY"): return
    exes = {k: compile(d, k) for k in ("4", "8", "4r")}
    with mp.pool.ThreadPool(8) as tp:
        def one(ij):
            i, j = ij
            e = f"{d}/e{i}"; os.makedirs(e, exist_ok=True)
            return j.name(), rec(j, exes[j.key], e)[1]
        base = dict(tp.map(one, enumerate(jobs())))
        again = dict(tp.map(one, enumerate(jobs())))
    print("unsteady:", [k for k in base if base[k] != again[k]], flush=True)
    with mp.Pool(N) as p:
        p.map(work, [(w, ms[w::N], base, out) for w in range(N)], 1)
main()
