"""Machinery of the checks: builds the harness against /repo, records executions of the real code,
and has TLC validate them against spec/Trace.tla; also model-checks the specification itself."""
import concurrent.futures as cf
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
CORPUS = os.path.join(ROOT, "corpus")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

class CheckError(Exception):
    """The check could not be made: neither a pass nor a violation."""

def say(*a):
    print(*a, flush=True)

# ---- building ---------------------------------------------------------------

def cargo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env

def build_one(key):
    """key: the order, then "r" to build without debug assertions, "o" with optimisations as well,
    "p" with items that have no destructor."""
    order, release = int(key.rstrip("rop")), "r" in key or "o" in key
    env = cargo_env()
    target = os.path.join(BUILD, "o" + key)
    env["CARGO_TARGET_DIR"] = target
    if order != 8:
        env["RUSTFLAGS"] = "--cfg raw_btree_order"
        env["RAW_BTREE_ORDER"] = str(order)
    prof = "release" if release else "debug"
    # Freshness is judged by mtime: have rustc look again at the crate under test.
    fp = os.path.join(target, prof, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("raw-btree-") or d.startswith("drv-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
    if release:
        cmd.append("--release")
    if "o" in key:
        env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "2"
    if "p" in key:
        cmd += ["--features", "plain"]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "build timed out"
    exe = os.path.join(target, prof, "drv")
    if r.returncode != 0 or not os.path.exists(exe):
        return None, r.stderr[-4000:]
    got = subprocess.run([exe, "order"], capture_output=True, text=True, timeout=60).stdout.strip()
    if got != str(order):
        return None, f"built for order {order}, but the crate's order is {got}"
    return exe, ""

def build(keys):
    """Returns {key: executable}; a hooked order that does not build is left out, with a note."""
    os.makedirs(BUILD, exist_ok=True)
    keys = sorted(set(keys) | {"8"})
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    with cf.ThreadPoolExecutor(len(keys)) as ex:
        res = dict(zip(keys, ex.map(build_one, keys)))
    if res["8"][0] is None:
        raise CheckError("the harness does not build against /repo:\n" + res["8"][1])
    for k, (exe, err) in res.items():
        if exe is None:
            say(f"note: no build for order {k}, left out: {err.strip().splitlines()[-1] if err.strip() else ''}")
    return {k: exe for k, (exe, _) in res.items() if exe}

# ---- recording --------------------------------------------------------------

class Job:
    def __init__(self, key, fam, **args):
        self.key, self.fam, self.args = key, fam, args

    def cmd(self, exe, out):
        c = [exe, self.fam, out]
        for k, v in self.args.items():
            if k == "corpus":
                v = os.path.join(CORPUS, v)
            c.append(f"{k if k != 'frm' else 'from'}={v}")
        return c

    def name(self):
        return f"order={self.key} {self.fam} " + " ".join(f"{k}={v}" for k, v in self.args.items())

def limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (400 << 20, 400 << 20))
        os.setsid()
    return f

OP = re.compile(r'\{"op":"([a-z_]+)"')

def record(job, exe, work, idx, cpu=60):
    """Runs the harness; returns the sessions (lists of event lines)."""
    out = os.path.join(work, f"rec{idx}")
    err = ""
    try:
        p = subprocess.Popen(job.cmd(exe, out), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             preexec_fn=limits(cpu, 3 << 30), env={"RUST_BACKTRACE": "0", "PATH": "/usr/bin:/bin"})
        try:
            _, e = p.communicate(timeout=cpu * 4)
            rc, err = p.returncode, e.decode(errors="replace")[-600:]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            rc, err = -9, "no end within the time limit"
    except OSError as e:
        raise CheckError(f"cannot run the harness: {e}")
    sessions, cur, eof = [], None, False
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                if not line.endswith("}\n"):
                    break
                line = line[:-1]
                if line.startswith('{"op":"begin"'):
                    cur = [line]
                    sessions.append(cur)
                elif line.startswith('{"op":"eof"'):
                    eof = True
                else:
                    cur.append(line)
        os.unlink(out)
    if rc == 99:
        raise CheckError(f"harness: {job.name()}: {err}")
    if rc != 0 or not eof:
        # The code under test ended the process: an event nothing explains.
        if not sessions:
            sessions.append(['{"op":"begin","m":8,"tag":"?","fam":"?","strict":false}'])
        sessions = sessions[-1:]
        short, size = [], 0
        for line in sessions[0]:
            size += len(line)
            if size > 1_000_000:
                break
            short.append(line)
        sessions[0] = short
        how = f"signal {-rc}" if rc < 0 else f"exit {rc}"
        sessions[-1].append(json.dumps({"op": "crash", "h": 0, "px": f"process ended: {how}; {err}"}))
    return sessions

# ---- TLC --------------------------------------------------------------------

procs, procs_lock, stopping = set(), threading.Lock(), threading.Event()

def tlc(cfg, module, work, tag, workers=1, mem="3g", env=None, extra=(), timeout=3000):
    """Returns (exit code, output)."""
    if stopping.is_set():
        return None, ""
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    meta = os.path.join(work, "md-" + tag)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", "-Xmx" + mem, "-Xss32m", gc, "-XX:CICompilerCount=2", f"-Djava.io.tmpdir={work}", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), "-workers", str(workers), "-metadir", meta, *extra,
           os.path.join(SPEC, module)]
    outf = os.path.join(work, f"out-{tag}")
    with open(outf, "w") as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, cwd=SPEC, env=e, preexec_fn=os.setsid)
        with procs_lock:
            procs.add(p)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -1000
        finally:
            with procs_lock:
                procs.discard(p)
    shutil.rmtree(meta, ignore_errors=True)
    if stopping.is_set() and rc not in (0, 11, 12, 13):
        return None, ""          # ended on purpose
    return rc, re.sub(r"(?m)^(Parsing file|Semantic processing) .*\n", "", open(outf, errors="replace").read())

def stop_all():
    stopping.set()
    with procs_lock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

GEN = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

def counts(out):
    m = None
    for m in GEN.finditer(out):
        pass
    return (int(m[1].replace(",", "")), int(m[2].replace(",", ""))) if m else (0, 0)

def model(cfg, module, work, workers=2, extra=(), mem="4g"):
    """Model-checks the specification itself."""
    rc, out = tlc(cfg, module, work, "mc-" + cfg.replace("/", "_"), workers=workers, mem=mem, extra=extra)
    if rc is None:
        return None
    if rc != 0:
        raise CheckError(f"the specification fails its own check ({module}, {cfg}, exit {rc}):\n{out[-3000:]}")
    return counts(out)

class Chunk:
    def __init__(self, path):
        self.path, self.sessions = path, []   # (job index, session index)

def write_chunks(recs, work, limit):
    """One file per TLC run; one line per session."""
    chunks, cur, size, f = [], None, 0, None
    for ji, sessions in enumerate(recs):
        for si, s in enumerate(sessions):
            if cur is None or size > limit:
                if f:
                    f.close()
                cur = Chunk(os.path.join(work, f"chunk{len(chunks)}.ndjson"))
                chunks.append(cur)
                f, size = open(cur.path, "w"), 0
            line = "[" + ",".join(s) + "]\n"
            f.write(line)
            size += len(line)
            cur.sessions.append((ji, si))
    if f:
        f.close()
    return chunks

def validate(chunk, work, tag, mem="3g"):
    """None if every session is explained; else (session position in the chunk, event number, message).
    Also the counts of the run."""
    rc, out = tlc("trace.cfg", "Trace.tla", work, tag, env={"TRACE": chunk.path}, mem=mem)
    if rc is None:
        return None, (0, 0)
    if rc == 0:
        return None, counts(out)
    # The last position shown is that of the rejected event.
    ev = re.findall(r"(?:event = |/\\ l = )(\d+)", out)
    ss = re.findall(r"(?:session = |/\\ tr = )(\d+)", out)
    broken = "OutOfMemory" in out or "StackOverflow" in out or "Parsing or semantic analysis failed" in out
    if ev and ss and not broken and (rc in (11, 12, 13) or "The behavior up to this point" in out
                                     or "The error occurred when TLC was evaluating" in out):
        back = 1 if rc == 12 or "evaluating the invariant" in out or "Evaluating invariant" in out else 0
        msg = next((l for l in out.splitlines() if l.startswith("Error:")), "").strip()
        return (int(ss[-1]) - 1, int(ev[-1]) - back, msg), counts(out)
    raise CheckError(f"TLC failed (exit {rc}) on recorded traces:\n{out[-3000:]}")
