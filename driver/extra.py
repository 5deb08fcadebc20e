"""Checks that need more than one run of the monitors against the release build."""
from common import *

SCRATCH = os.path.join(BUILD, "scratch")
CLIENT = os.path.join(VERIF, "driver", "client", "client.c")
HEADER = os.path.join(REPO, "image-palette-recoloring-c")
CLIB = "image-palette-recoloring-c"


def scratch(name):
    d = os.path.join(SCRATCH, f"{name}-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def many(rep, argvs, env, n, budget, label, cpu_limit=150, mem=None, nproc=NPROC, first=0):
    """Processes that speak the monitors' protocol."""
    deadline = time.time() + budget
    ths = []
    for i in range(nproc):
        t = threading.Thread(target=worker, args=(rep, argvs, env, first + i, nproc, first + n, deadline, cpu_limit, 800, mem, f"{label}-{i}"))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()


# --- C13: the C API

def c13(prop, tier, seed, case):
    rep = Report(prop, tier, seed)
    mon = build_mon()
    lib = build_workspace([CLIB])
    n = {"quick": 3000, "thorough": 100000}[tier]
    env = base_env(MON_CDYLIB=os.path.join(lib, "libimage_palette_recoloring_c.so"))
    rule = ("life cycles of the whole C API in random orders (weights freed early, two decompositions, several palettes, "
            "degenerate images, invalid palettes, channels out of bounds) through the shared library from Rust, with buffers "
            "next to inaccessible pages, and from a C program that only knows the header (shared and static library, every "
            "allocation counted, and under valgrind); non-trivial: results were compared with those of the Rust API byte by "
            "byte; distinct by pixels, palette and limits")
    if case is not None and case < 10 ** 6:
        run_mon(rep, mon, prop, tier, seed, 1, 100, nproc=1, first=case, env=env)
        finish(rep, rule)
    d = scratch("c13")
    try:
        dump = os.path.join(d, "dump.bin")
        k = {"quick": 1600, "thorough": 12000}[tier]
        try:
            r = subprocess.run([mon, "dump", str(seed), dump, str(k)], env=base_env(), stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True, timeout=200 if tier == "quick" else 700)
            failed = summary(r.stderr) if r.returncode != 0 else None
        except subprocess.TimeoutExpired:
            failed = "it takes too long"
        if failed:
            # the Rust API misbehaves on one of the cases; the monitors below say how
            rep.herr(f"the expected results couldn't be computed: {failed}")
        else:
            clients = {}
            shared = ["-rdynamic", "-L", lib, "-Wl,-rpath," + lib, "-limage_palette_recoloring_c", "-lpthread", "-lm"]
            static = [os.path.join(lib, "libimage_palette_recoloring_c.a"), "-lpthread", "-lm", "-ldl"]
            for name, flags in (("counted", ["-DCOUNT", *shared]), ("shared", shared), ("static", static)):
                out = os.path.join(d, name)
                c = subprocess.run(["gcc", "-std=c99", "-g", "-O1", "-I", HEADER, CLIENT, "-o", out, *flags],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if c.returncode == 0:
                    clients[name] = out
                else:
                    rep.viol(-1, f"a C program can't be built against the header and the {name} library: {c.stdout.strip()[:600]}")
            cpp = os.path.join(d, "x.cpp")
            with open(cpp, "w") as f:
                f.write('#include "image-palette-recoloring.h"\n#include "image-palette-recoloring.h"\n'
                        'int main() { return create_image_weights == 0; }\n')
            c = subprocess.run(["g++", "-std=c++11", "-I", HEADER, cpp, "-o", os.path.join(d, "cpp"), *shared],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode != 0:
                rep.viol(-1, f"a C++ program can't be built against the header and the library: {c.stdout.strip()[:600]}")
            budget = {"quick": 60, "thorough": 250}[tier]
            # -- case numbers of the C clients are only meaningful within their dump
            if "counted" in clients:
                many(rep, [clients["counted"], dump], base_env(), k, budget, "counted")
            if "static" in clients and not rep.violations:
                many(rep, [clients["static"], dump], base_env(), k // 2, budget, "static")
            if "shared" in clients and not rep.violations:
                vg = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=full",
                      "--errors-for-leak-kinds=definite,possible", "--show-leak-kinds=definite,possible", "--num-callers=30"]
                before = rep.cases
                many(rep, vg + [clients["shared"], dump], base_env(), {"quick": 240, "thorough": 3000}[tier], budget, "valgrind",
                     cpu_limit=400)
                rep.count("cases_under_valgrind", rep.cases - before)
        if not rep.violations:
            run_mon(rep, mon, prop, tier, seed, n, {"quick": 60, "thorough": 300}[tier], env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    finish(rep, rule, [("life_cycles", 500), ("client_life_cycles_counted", 500), ("client_decomposed", 300), ("weights_null", 50),
                       ("decomposed_null", 50), ("palette_null", 50), ("palette_too_large", 2), ("many_channels", 20), ("cases_under_valgrind", 50)])


# --- C14: memory safety

SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=1:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:"
                             "max_allocation_size_mb=3000",
             "LSAN_OPTIONS": "exitcode=99"},
    "tsan": {"TSAN_OPTIONS": "exitcode=98:halt_on_error=1:history_size=4"},
    "msan": {"MSAN_OPTIONS": "exit_code=96:halt_on_error=1"},
}


class Crashes(Report):
    """Only crashes, sanitizer reports and non-termination count; what the results are is for other checks."""

    def viol(self, case, msg, **replay):
        if msg.startswith(("crashed", "doesn't terminate", "process failed", "sanitizer")):
            super().viol(case, msg, **replay)
        else:
            self.count("other_observations")


C14_QUICK = [("C01", 2000), ("C03", 1200), ("C04", 500), ("C05", 400), ("C06", 200), ("C07", 600), ("C08", 800), ("C09", 800),
             ("C10", 4000), ("C11", 700), ("C12", 900), ("C17", 800)]


def c14(prop, tier, seed, case):
    rep = Crashes(prop, tier, seed)
    mon = build_mon(["raw"], "asan")
    env = base_env(**SAN_ENV["asan"])
    rule = ("the workloads of the checks of hulls, triangulations, raw handles, images, palettes and degenerate images run with "
            "AddressSanitizer, LeakSanitizer and (for the C code) UndefinedBehaviorSanitizer; non-trivial: the workload's own "
            "monitor considered the case non-trivial; distinct by the workload's input")
    if case is not None:
        p, k = "C%02d" % (case // 10 ** 7), case % 10 ** 7
        run_mon(rep, mon, p, tier, seed, 1, 200, nproc=1, first=k, env=env, mem=None)
        finish(rep, rule)
    total = {"quick": 330, "thorough": 560}[tier]
    t0 = time.time()
    subs = []
    for p, n in C14_QUICK:
        sub = Crashes(p, tier, seed)
        subs.append((p, sub))
        n = n if tier == "quick" else n * 40
        if any(s.violations for _, s in subs):
            break
        left = total - (time.time() - t0)
        share = max(10, left / (len(C14_QUICK) - len(subs) + 1) * (2 if tier == "quick" else 1))
        run_mon(sub, mon, p, tier, seed, n, share, env=env, mem=None, cpu_limit=200, label="asan")
    try:
        msan = None if any(s.violations for _, s in subs) else build_mon(["raw"], "msan")
        for p, n in C14_QUICK if msan else []:
            if any(s.violations for _, s in subs):
                break
            sub = Crashes(p, tier, seed + 1000)
            subs.append((p, sub))
            run_mon(sub, msan, p, tier, seed + 1000, n // 4 if tier == "quick" else n * 4, 20, env=base_env(**SAN_ENV["msan"]), mem=None,
                    cpu_limit=200, label="msan")
            rep.count("cases_with_MemorySanitizer", sub.cases)
    except HarnessError as e:
        # (needs the standard library's sources; the other sanitizers decide without it)
        log(f"no MemorySanitizer: {e}")
    for p, sub in subs:
        rep.cases += sub.cases
        rep.evals += sub.evals
        rep.sigs |= {p + s for s in sub.sigs}
        rep.samples += [f"{p}: {s}" for s in sub.samples[:1]]
        rep.harness += sub.harness
        rep.count(f"cases_of_{p}", sub.cases)
        rep.count("other_observations", sub.counters.get("other_observations", 0))
        for c, m, r in sub.violations:
            rep.violations.append((int(p[1:]) * 10 ** 7 + c if isinstance(c, int) and c >= 0 else -1, f"{p}: {m}", r))
    finish(rep, rule, [(f"cases_of_{p}", min(n, 50)) for p, n in C14_QUICK])


# --- C15: determinism

def c15(prop, tier, seed, case):
    mon = build_mon()
    n, budget = {"quick": (1200, 60), "thorough": (40000, 240)}[tier]
    rule = ("the whole pipeline (palette, weights, decomposition by that and another palette, channels, recoloured images) is run "
            "again, after other work and failures, in another thread, on parts of larger images, and in other processes with "
            "different memory layouts and contents; non-trivial: all results were compared byte by byte; distinct by the results")
    rep = Report(prop, tier, seed)
    first, n, np = (case, 1, 1) if case is not None else (0, n, NPROC)
    run_mon(rep, mon, prop, tier, seed, n, budget, first=first, nproc=np)
    for i, kw in enumerate([dict(MALLOC_PERTURB_="165", MALLOC_ARENA_MAX="1"), dict(MALLOC_PERTURB_="1", MALLOC_MMAP_THRESHOLD_="256", LANG="C", MON_PAD="x" * 5000)]):
        if rep.violations:
            break
        other = Report(prop, tier, seed)
        run_mon(other, mon, prop, tier, seed, n if tier == "thorough" else n // 2, budget, env=base_env(**kw), first=first,
                nproc=max(1, np - 3 * i), label=f"again{i}-")
        for c, s in other.case_sigs.items():
            if c in rep.case_sigs:
                rep.count("compared_between_processes")
                if rep.case_sigs[c] != s:
                    rep.viol(c, f"another process gives different results (digests {rep.case_sigs[c]} and {s})")
        for c, m, r in other.violations:
            if m not in [v[1] for v in rep.violations]:
                rep.viol(c, m, **r)
        rep.harness += other.harness
    finish(rep, rule, [] if case is not None else [("compared_between_processes", 300), ("runs", 400), ("critical_bounds", 5), ("symmetric_palettes", 300)])


# --- C16: threads

def c16(prop, tier, seed, case):
    rule = ("six threads run pipelines on different images (some failing) while sharing weights, decomposed images, "
            "triangulations and hulls; every result is compared with the one computed alone, and ThreadSanitizer watches another "
            "build; non-trivial: threads overlapped and all results were compared; distinct by the images")
    rep = Report(prop, tier, seed)
    mon = build_mon()
    n = {"quick": 160, "thorough": 4000}[tier]
    if case is not None:
        run_mon(rep, mon, prop, tier, seed, 1, 100, nproc=1, first=case)
        finish(rep, rule)
    run_mon(rep, mon, prop, tier, seed, n, {"quick": 60, "thorough": 250}[tier], nproc=3)
    if rep.violations:
        finish(rep, rule)
    t = build_mon(flavour="tsan")
    before = rep.cases
    run_mon(rep, t, prop, tier, seed + 500, {"quick": 60, "thorough": 1500}[tier], {"quick": 120, "thorough": 400}[tier], nproc=4,
            env=base_env(**SAN_ENV["tsan"]), mem=None, cpu_limit=500, label="tsan")
    rep.count("cases_with_ThreadSanitizer", rep.cases - before)
    finish(rep, rule, [("concurrent_pipelines", 500), ("cases_with_ThreadSanitizer", 8)])


# --- C18: the command line

def c18(prop, tier, seed, case):
    rule = ("the command line tool is run in a scratch directory with random images in several formats, palettes, options and "
            "mistakes; non-trivial: exit code, output and all files were compared with what the library gives; distinct by pixels "
            "and command line")
    rep = Report(prop, tier, seed)
    mon = build_mon()
    d = build_workspace(["image-palette-recoloring-cli"])
    s = scratch("cli")
    env = base_env(MON_CLI=os.path.join(d, "image-palette-recoloring-cli"), MON_SCRATCH=s)
    try:
        if case is not None:
            run_mon(rep, mon, prop, tier, seed, 1, 100, nproc=1, first=case, env=env)
            finish(rep, rule)
        n, budget = {"quick": (5000, 90), "thorough": (200000, 700)}[tier]
        run_mon(rep, mon, prop, tier, seed, n, budget, env=env)
    finally:
        shutil.rmtree(s, ignore_errors=True)
    finish(rep, rule, [("palettes", 200), ("palettes_refused", 100), ("recolored", 200), ("recolorings_refused", 200), ("channels", 500)])


# --- C19, C20: the web page

def web(mode, prop, tier, seed, case, n, budget, rule, require):
    rep = Report(prop, tier, seed)
    d = scratch("web")
    try:
        src = os.path.join(REPO, "image-palette-recoloring-web", "src")
        for x in ("js", "html"):
            shutil.copytree(os.path.join(src, x), os.path.join(d, x))
        shutil.copytree(os.path.join(VERIF, "web", "mocks"), os.path.join(d, "node_modules"))
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type": "module"}')
        argv = ["node", os.path.join(VERIF, "web", "main.mjs"), mode, str(seed), os.path.join(d, "js")]
        if case is not None:
            many(rep, argv, base_env(), 1, 60, mode, nproc=1, first=case)
            require = []
        else:
            many(rep, argv, base_env(), n, budget, mode)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rep.assumptions = ["the simulated browser, message channel and wasm library in /verif/web behave like the real ones as far as "
                       "the scripts use them"]
    finish(rep, rule, require)


def c19(prop, tier, seed, case):
    n, budget = {"quick": (12000, 60), "thorough": (200000, 700)}[tier]
    web("worker", prop, tier, seed, case, n, budget,
        "histories of 4 to 30 requests to the real worker script, several in flight, interleaved at random, with a simulated wasm "
        "library whose memory moves at any call and which tracks every buffer and handle; non-trivial: every answer was compared "
        "with a model and the memory was balanced at the end; distinct by input and interleaving",
        [("answers", 5000), ("errors", 1000), ("memory_growths", 5000), ("overlapping_histories", 300), ("wrong_palette_sizes", 300)])


def c20(prop, tier, seed, case):
    n, budget = {"quick": (3000, 80), "thorough": (40000, 700)}[tier]
    web("page", prop, tier, seed, case, n, budget,
        "random user actions (pictures, clicks, edits of colours and texts, alone and in bursts) on the real page and worker "
        "scripts in a simulated browser that interleaves everything asynchronous at random; non-trivial: what the page shows was "
        "compared with a model whenever it came to rest; distinct by input and interleaving",
        [("pictures_checked", 5000), ("invalid_texts", 300), ("valid_texts", 300), ("bursts", 500), ("invalid_palettes", 50),
         ("unusable_checked", 100), ("broken_picks", 20), ("cancelled_picks", 20)])


CHECKS = {"C13": c13, "C14": c14, "C15": c15, "C16": c16, "C18": c18, "C19": c19, "C20": c20}
