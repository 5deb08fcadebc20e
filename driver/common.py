"""Shared machinery of the checks: building from /repo's working tree, running monitored workers,
collecting what the monitors observed, deciding and reporting."""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
STABLE = "stable-x86_64-unknown-linux-gnu"
NPROC = min(8, os.cpu_count() or 8)
TRIPLE = "x86_64-unknown-linux-gnu"


class HarnessError(Exception):
    """The check couldn't be carried out; says nothing about the property."""


def log(msg):
    print(msg, flush=True)


def base_env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC_", "RUSTFLAGS", "LD_PRELOAD", "ASAN_", "TSAN_", "UBSAN_", "LSAN_")):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def c_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "qhull-sys")):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            if f.endswith((".c", ".h")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


def run_build(cmd, cwd, env, what, timeout=800):
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise HarnessError(f"building {what} failed")
    log(f"built {what} in {time.time() - t:.1f} s")


def refresh_c(target):
    """qhull-sys' build script doesn't watch the C sources: make cargo run it again."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "c-sources.sha256")
    new = c_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != new:
        for root, dirs, _ in os.walk(target):
            for d in [d for d in dirs if d.startswith("qhull-sys") and os.path.basename(root) in ("build", ".fingerprint")]:
                shutil.rmtree(os.path.join(root, d))
                dirs.remove(d)
    with open(stamp, "w") as f:
        f.write(new)


def crate_lock(crate):
    """Cargo may want to touch the lock file: give it a copy."""
    d = os.path.join(BUILD, "lock-" + os.path.basename(crate))
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(crate, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return os.path.join(d, "Cargo.lock")


def build_mon(features=(), flavour="release"):
    """The monitors (harness/), linked against /repo's crates."""
    crate = os.path.join(VERIF, "harness")
    target = os.path.join(BUILD, "mon-" + flavour)
    env = base_env(CARGO_RESOLVER_LOCKFILE_PATH=crate_lock(crate))
    cmd = ["cargo", "build", "--offline", "--release", "--target-dir", target]
    sub = "release"
    if features:
        cmd += ["--features", ",".join(features)]
    if flavour == "asan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        env["CC"] = "clang"
        env["CFLAGS"] = ("-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                         "-fno-sanitize=function,vptr -fsanitize-trap=undefined")
        cmd += ["--target", TRIPLE]
        sub = TRIPLE + "/release"
    elif flavour == "tsan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        env["CC"] = "clang"
        # -O0: optimisations could remove accesses to shared variables before they are instrumented
        env["CFLAGS"] = "-g -O0 -fsanitize=thread"
        cmd += ["--target", TRIPLE, "-Zbuild-std"]
        sub = TRIPLE + "/release"
    elif flavour == "msan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=memory -Zsanitizer-memory-track-origins"
        env["CC"] = "clang"
        env["CFLAGS"] = "-g -O1 -fsanitize=memory -fsanitize-memory-track-origins -fno-omit-frame-pointer"
        cmd += ["--target", TRIPLE, "-Zbuild-std"]
        sub = TRIPLE + "/release"
    refresh_c(target)
    run_build(cmd, crate, env, f"the monitors ({flavour})")
    return os.path.join(target, sub, "mon")


def build_workspace(packages):
    """Products of /repo's own workspace, built like a user would. Returns the directory."""
    target = os.path.join(BUILD, "ws")
    lock = os.path.join(BUILD, "lock-ws")
    os.makedirs(lock, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "lock", "workspace.lock"), os.path.join(lock, "Cargo.lock"))
    env = base_env(CARGO_RESOLVER_LOCKFILE_PATH=os.path.join(lock, "Cargo.lock"),
                   CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1")
    refresh_c(target)
    cmd = ["cargo", "build", "--offline", "--target-dir", target]
    for p in packages:
        cmd += ["-p", p]
    run_build(cmd, REPO, env, ", ".join(packages))
    return os.path.join(target, "debug")


class Report:
    """What was observed, over all workers of a check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cases = self.evals = 0
        self.sigs = set()
        self.case_sigs = {}
        self.samples = []
        self.counters = {}
        self.maxima = {}
        self.violations = []  # (case, message, replay data)
        self.harness = []
        self.assumptions = []
        self.notes = {}
        self.t0 = time.time()
        self.known = known_findings(prop)
        self.seen_known = set()
        self.lock = threading.Lock()
        self.stop = False  # enough was seen

    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def max(self, k, v):
        with self.lock:
            if k not in self.maxima or v > self.maxima[k] or v != v:
                self.maxima[k] = v

    def case(self, evals, sig=None, desc=None, case=None):
        with self.lock:
            self.cases += 1
            self.evals += evals
            if sig is not None:
                self.sigs.add(sig)
                if case is not None:
                    self.case_sigs[case] = sig
                if desc and len(self.samples) < 8:
                    self.samples.append(desc)

    def viol(self, case, msg, **replay):
        with self.lock:
            k = next((x for x in self.known if x[0] in msg), None)
            if k:
                self.seen_known.add(k)
                return
            self.violations.append((case, msg, replay))

    def herr(self, msg):
        with self.lock:
            self.harness.append(msg)


def proc_cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def worker(rep, argv, env, start, stride, end, deadline, cpu_limit, wall_limit, mem, label, quiet_sig=False):
    """Run cases start, start+stride, ... of a monitor binary, restarting it after crashes."""
    restarts = 0
    while start < end and time.time() < deadline and not rep.stop:
        budget = max(1.0, deadline - time.time())
        cmd = argv + [str(start), str(stride), str(end), f"{budget:.1f}"]

        def pre():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        errf = os.path.join(BUILD, f"stderr.{os.getpid()}.{label}")
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=env, preexec_fn=pre,
                                 stdin=subprocess.DEVNULL, text=True, errors="replace")
        state = {"case": None, "since": time.time(), "cpu": 0.0, "ended": False, "killed": None}

        def watch():
            while p.poll() is None:
                time.sleep(0.5)
                c = state["case"]
                if c is None:
                    if time.time() - state["since"] > wall_limit:
                        state["killed"] = "wall"
                        p.kill()
                    continue
                cpu = proc_cpu(p.pid)
                if cpu is None:
                    continue
                if rep.stop and rep.violations and cpu - state["cpu"] > 20:
                    state["killed"] = "enough"
                    p.kill()
                elif cpu - state["cpu"] > cpu_limit and state["case"] == c:
                    state["killed"] = "cpu"
                    p.kill()
                elif time.time() - state["since"] > wall_limit and state["case"] == c:
                    state["killed"] = "wall"
                    p.kill()

        th = threading.Thread(target=watch, daemon=True)
        th.start()
        for line in p.stdout:
            f = line.rstrip("\n").split(" ", 2)
            if f[0] == "B":
                state["cpu"] = proc_cpu(p.pid) or 0.0
                state["since"] = time.time()
                state["case"] = int(f[1])
            elif f[0] == "D":
                case = int(f[1])
                ev, nt, sig, desc = (f[2] + "   ").split(" ", 3)
                rep.case(int(ev), sig if nt == "1" else None, desc.strip(), case)
                state["case"] = None
                state["since"] = time.time()
                start = case + stride
            elif f[0] == "V":
                rep.viol(int(f[1]), f[2])
            elif f[0] == "H":
                rep.herr(f"case {f[1]}: {f[2]}")
            elif f[0] == "C":
                rep.count(f[1], int(f[2]))
            elif f[0] == "M":
                rep.max(f[1], float(f[2]))
            elif f[0] == "END":
                state["ended"] = True
        p.wait()
        th.join()
        err = open(errf, errors="replace").read()
        try:
            os.unlink(errf)
        except OSError:
            pass
        if state["ended"] and p.returncode == 0:
            return
        tail = err.strip()[-3000:]
        case = state["case"]
        if state["killed"] == "enough":
            return
        if state["killed"] == "wall":
            rep.herr(f"{label}: no progress in {wall_limit} s of wall-clock time (case {case})")
            return
        if case is None:
            # not while running a case (e.g. a sanitizer's report at exit)
            if state["ended"]:
                rep.viol(-1, f"process failed at exit ({p.returncode}): {summary(tail)}", stderr=tail)
            else:
                rep.herr(f"{label}: worker died outside of a case ({p.returncode}): {tail[-500:]}")
            return
        if state["killed"] == "cpu":
            rep.stop = True
            rep.viol(case, f"doesn't terminate: more than {cpu_limit} s of CPU time")
        else:
            sig = ""
            if p.returncode < 0:
                try:
                    sig = signal.Signals(-p.returncode).name
                except ValueError:
                    sig = str(-p.returncode)
            rep.viol(case, f"crashed ({sig or p.returncode}): {summary(tail)}", stderr=tail)
        restarts += 1
        if restarts > 2:
            return
        start = case + stride


def summary(text):
    for key in ("uninitialised", "Invalid read", "Invalid write", "definitely lost", "Invalid free", "SUMMARY:", "ERROR:", "WARNING:", "panicked", "runtime error"):
        for l in text.splitlines():
            if key in l:
                return l.strip()[:300]
    return " ".join(text.split())[-300:]


def run_mon(rep, binary, prop, tier, seed, cases, budget, nproc=NPROC, cpu_limit=150, env=None, mem=12 << 30,
            wall_limit=800, first=0, label=""):
    deadline = time.time() + budget
    ths = []
    for i in range(nproc):
        argv = [binary, prop, tier, str(seed)]
        t = threading.Thread(target=worker, args=(rep, argv, env or base_env(), first + i, nproc, first + cases, deadline,
                                                  cpu_limit, wall_limit, mem, f"{label}{prop}-{i}"))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()


def known_findings(prop):
    """`known: property=<id> match=<text> <what fails>` lines; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={prop} match="):
                rest = l.split("match=", 1)[1]
                key, what = rest.split(" :: ", 1)
                out.append((key, what))
    return out


def finish(rep, rule, require=(), level="exploration", extra=None):
    """Decide, write the evidence, and exit."""
    viols = sorted(rep.violations, key=lambda v: (v[0] if isinstance(v[0], int) else 0, v[1]))
    inconclusive = list(rep.harness)
    for k, least in require:
        if rep.counters.get(k, 0) < least:
            inconclusive.append(f"only {rep.counters.get(k, 0)} of at least {least} '{k}' were observed")
    if rep.cases == 0 and not rep.violations:
        inconclusive.append("nothing was executed")
    paths = []
    rdir = os.path.join(VERIF, "replays")
    for case, msg, replay in viols[:10]:
        os.makedirs(rdir, exist_ok=True)
        name = hashlib.sha256(f"{rep.prop}{case}{msg}{rep.seed}".encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{rep.prop}-{name}.json")
        with open(path, "w") as f:
            json.dump({"property": rep.prop, "tier": rep.tier, "seed": rep.seed, "case": case, "message": msg,
                       "command": f"VERIF_SEED={rep.seed} python3 {VERIF}/driver/check.py {rep.prop} {rep.tier} --case {case}",
                       **replay}, f, indent=1)
        paths.append((path, msg))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": rep.seed,
        "level": level,
        "coverage": {
            "evaluations": rep.cases,
            "oracle_evaluations": rep.evals,
            "distinct_nontrivial": len(rep.sigs),
            "rule": rule,
            "samples": rep.samples[:8],
            "observed": dict(sorted(rep.counters.items())),
            "extremes": {k: (v if v == v and abs(v) != float("inf") else str(v)) for k, v in sorted(rep.maxima.items())},
            **(extra or {}),
        },
        "assumptions": rep.assumptions or ["the reference models in /verif/harness are right"],
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(viols),
    }
    if rep.seen_known:
        ev["coverage"]["known_findings_seen"] = [what for _, what in sorted(rep.seen_known)]
    if viols:
        ev["coverage"]["violation_messages"] = [f"case {c}: {m[:600]}" for c, m, _ in viols[:20]]
    if inconclusive:
        ev["coverage"]["inconclusive"] = inconclusive[:10]
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{rep.prop}: {rep.cases} cases, {rep.evals} evaluations, {len(rep.sigs)} distinct non-trivial, "
        f"{len(rep.violations)} violations in {time.time() - rep.t0:.1f} s")
    for k, what in sorted(rep.seen_known):
        log(f"KNOWN-FINDING: property={rep.prop} {what}")
    for path, msg in paths:
        log(f"  {msg[:700]}")
        log(f"VIOLATION property={rep.prop} replay={path}")
    for m in inconclusive[:10]:
        log(f"INCONCLUSIVE: {m}")
    if viols:
        sys.exit(1)
    sys.exit(2 if inconclusive else 0)
