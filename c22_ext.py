"""C22: the same two-unit program in every build configuration; all must build or none, and observe the same."""
import os, random, shutil, subprocess, threading
from run_check import guarded_wait, REPO, BASE, HARNESS, san_env, SEED, THOROUGH, CheckError
DEFS = [REPO + "/api/src/cmp/%s/definitions.cpp" % p for p in ("core", "unicode", "io")]
HO, SEP = ["-DCMP_CONFIG_HEADER_ONLY=true"], ["-DCMP_CONFIG_HEADER_ONLY=false"]
CONFIGS = {
    "gcc-O0-header-only": ("g++", ["-O0"] + HO, False), "gcc-O2-compiled": ("g++", ["-O2"] + SEP, True), "gcc-O3-NDEBUG-header-only": ("g++", ["-O3", "-DNDEBUG"] + HO, False),
    "clang-O2-header-only": ("clang++", ["-O2"] + HO, False), "clang-O0-compiled": ("clang++", ["-O0"] + SEP, True), "clang-O3-NDEBUG-compiled": ("clang++", ["-O3", "-DNDEBUG"] + SEP, True),
    "gcc-O1-header-only-asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + HO, False), "gcc-O1-compiled-asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + SEP, True),
    "gcc-O2-shared-library": ("g++", ["-O2"] + SEP, "so"),
    "gcc-O1-pattern-stack": ("g++", ["-O1", "-ftrivial-auto-var-init=pattern"] + HO, False), "clang-O1-compiled-pattern-stack": ("clang++", ["-O1", "-ftrivial-auto-var-init=pattern"] + SEP, True),
    "gcc-O1-small-buffers": ("g++", ["-O1", "-DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=3"] + HO, False), "clang-O1-compiled-no-buffers": ("clang++", ["-O1", "-DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=0"] + SEP, True),
}
def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=800)
    return r.returncode, r.stderr
def build(ctx, name, res):
    cxx, flags, sep = CONFIGS[name]; d = ctx.path(name); os.makedirs(d)
    common = [cxx] + BASE + ["-g0"] + flags; units = [os.path.join(HARNESS, "c22.cpp"), os.path.join(HARNESS, "c22_unit2.cpp")]
    objs, procs = [], []
    for i, s in enumerate(units + (DEFS if sep else [])):
        o = "%s/%d.o" % (d, i); objs.append(o); procs.append(subprocess.Popen(common + (["-fPIC"] if sep == "so" else []) + ["-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w")))
    rc = [p.wait() for p in procs]; log = "".join(open(o + ".err").read() for o in objs)
    if any(rc): res[name] = ("compile", log[-3000:]); return
    if sep == "so":
        r, e = sh(common + ["-shared"] + objs[2:] + ["-o", d + "/libccl.so"])
        if r: res[name] = ("link", e[-3000:]); return
        r, e = sh(common + objs[:2] + ["-L" + d, "-lccl", "-Wl,-rpath," + d, "-o", d + "/prog"])
    else: r, e = sh(common + objs + ["-o", d + "/prog"])
    res[name] = ("link", e[-3000:]) if r else ("ok", d + "/prog")
def run(ctx):
    res = {}; sem = threading.Semaphore(4)
    def go(n):
        with sem: build(ctx, n, res)
    ts = [threading.Thread(target=go, args=(n,)) for n in CONFIGS]; [t.start() for t in ts]; [t.join() for t in ts]
    good = [n for n in CONFIGS if res[n][0] == "ok"]
    if not good: raise CheckError("no configuration builds: " + res["gcc-O0-header-only"][1])
    for n in CONFIGS:
        if res[n][0] != "ok": ctx.violate("does-not-%s:%s" % (res[n][0], n), "%s fails to %s while %s builds: %s" % (n, res[n][0], ", ".join(good), res[n][1][-600:]), config=n, log=res[n][1])
    r = random.Random(SEED); inp = "".join("".join(chr(r.choice([r.randrange(0x20, 0x7F), r.randrange(0xA1, 0x2000), r.randrange(0x10000, 0x10FFFF)])) for _ in range(r.randrange(60))) + "\n" for _ in range(45)).encode()
    open(ctx.path("input"), "wb").write(inp)
    count = 3000 if THOROUGH else 250; obs = {}
    def one(n):
        with sem:
            d = os.path.dirname(res[n][1]); out = d + "/obs"; wd = d + "/wd"; os.makedirs(wd)
            for attempt in (1, 2):
                p = subprocess.Popen([res[n][1], "--out", out, "--seed", str(SEED), "--count", str(count)], stdin=open(ctx.path("input"), "rb"), stdout=open(d + "/stdout", "wb"), stderr=open(d + "/stderr", "wb"), cwd=wd, env=san_env({"MALLOC_PERTURB_": str((list(CONFIGS).index(n) * 37 + 1) % 256)}), start_new_session=True)
                rc, why = guarded_wait(p, 1500 if THOROUGH else 200, (d,)); rc = why or rc
                if why != "timeout": break
            rd = lambda f: open(d + "/" + f, "rb").read(1 << 28) if os.path.exists(d + "/" + f) else b""
            obs[n] = (rc, rd("obs").decode("latin-1").split("\n")[:-1], rd("stdout"), rd("stderr"))
    def bad(key, n, d): ctx.violate(key, "%s: %s" % (n, d), config=n, seed=SEED, count=count)
    def memcheck(n): # the same program under valgrind: nothing decided by, or written from, memory that was never set
        with sem:
            d = os.path.dirname(res[n][1]); wd = d + "/mwd"; os.makedirs(wd); c = 150 if THOROUGH else 12
            for attempt in (1, 2):
                p = subprocess.Popen(["valgrind", "-q", "--error-exitcode=77", "--leak-check=full", "--errors-for-leak-kinds=definite", "--log-file=" + d + "/valgrind", res[n][1], "--out", d + "/mobs", "--seed", str(SEED + 7), "--count", str(c)], stdin=open(ctx.path("input"), "rb"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=wd, env=san_env(), start_new_session=True)
                rc, why = guarded_wait(p, 900 if THOROUGH else 150, (d,)); rc = why or rc
                if why != "timeout": break
            log = open(d + "/valgrind", "rb").read().decode("latin-1") if os.path.exists(d + "/valgrind") else ""
            lines = open(d + "/mobs").read().split("\n") if os.path.exists(d + "/mobs") else []
            if rc == 0: ctx.count("memcheck_sections", sum("/" in l for l in lines)); ctx.count("memcheck_runs")
            elif rc == 77 or "Invalid" in log or "uninitialised" in log: bad("memcheck", n, log[:3000])
            else: ctx.count("memcheck_did_not_finish") # the plain run of the same program judges crashes and hangs
    mc = ["gcc-O0-header-only", "clang-O0-compiled"] if shutil.which("valgrind") else []
    ts = [threading.Thread(target=one, args=(n,)) for n in good] + [threading.Thread(target=memcheck, args=(n,)) for n in mc if n in good]; [t.start() for t in ts]; [t.join() for t in ts]
    for n in good:
        rc, lines, so, se = obs[n]; ctx.count("configurations_run")
        if rc == "timeout": bad("hang", n, "did not finish twice"); continue
        if rc != 0: bad("crash:" + n, n, "ended with %s after %r: %s" % (rc, (lines or ["nothing"])[-1], se[-1500:].decode("latin-1"))); continue
        for l in lines:
            k = l.split(" ")[0]
            if k.startswith(("shared-", "units-agree", "exception-across")) and not l.endswith(" 1"): bad(k.split("/")[0], n, l)
            if k.startswith("units-agree"): ctx.count("unit_comparisons")
            if k == "line-read-before-main": ctx.count("lines_read_before_main")
            if k.startswith("shared-"): ctx.count("shared_object_checks")
        ctx.count("outputs_of_global_objects", so.count(b" made\n") + so.count(b" gone after "))
    clean = [n for n in good if obs[n][0] == 0]
    if len(clean) < 2: return
    # the majority observation is the reference, so that the report names the odd one out
    for i in range(max(len(obs[n][1]) for n in clean)):
        vals = {}
        for n in clean: vals.setdefault(obs[n][1][i] if i < len(obs[n][1]) else "(nothing)", []).append(n)
        top = max(vals, key=lambda v: len(vals[v])); ctx.event((SEED << 32) + i); ctx.count("observations_compared", len(clean))
        if i % 1500 == 5: ctx.sample(top)
        for v, ns in vals.items():
            if v != top and len(ctx.violations) < 50: bad("differs:" + top.split("/")[0].split(" ")[0], ",".join(ns), "%r where %s observe %r" % (v, ",".join(vals[top]), top))
    for what, ix in (("stdout", 2), ("stderr", 3)):
        vals = {}
        for n in clean: vals.setdefault(obs[n][ix], []).append(n)
        ctx.count("standard_stream_outputs_compared", len(clean))
        if len(vals) > 1: bad("differs:" + what, " | ".join(",".join(v) for v in vals.values()), "different bytes: " + " / ".join(repr(v[-80:]) for v in vals))
