#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks: run_check.py <property>.

Builds the property's harness(es) from /repo's current working tree in a scratch directory,
runs them (sharded, deterministic from VERIF_SEED), merges what the monitors observed,
matches violations against known-findings.txt, writes evidence/<id>.json and exits
0 (held on everything observed), 1 (VIOLATION printed) or 2 (the check itself failed)."""
import array, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
NCPU = 8

class CheckError(Exception):
    pass

INC = ["-I" + REPO + "/api/include", "-I" + REPO + "/api/src"]
BASE = ["-w", "-std=c++20", "-g1", "-I" + HARNESS] + INC
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"]
TSAN = ["-O1", "-fsanitize=thread"]
HDR = ["-DCMP_CONFIG_HEADER_ONLY=true"]

def san_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LSAN_"))}
    e["ASAN_OPTIONS"] = "detect_stack_use_after_return=0:detect_leaks=1:abort_on_error=0:exitcode=76:hard_rss_limit_mb=3000:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=76"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=76:report_signal_unsafe=0:history_size=4"
    e["LC_ALL"] = "C"
    e.update(extra or {})
    return e

def guarded_wait(p, timeout, files=(), rss_mb=3500, disk_mb=4000):
    """waits for p (a session leader) and ends it when it takes too long, too much memory or fills the disk: (rc, None | reason)"""
    end = time.time() + timeout; why = None; step = .02
    def usage():
        n = 0
        for f in files:
            for d, _, fs in os.walk(f) if os.path.isdir(f) else [(os.path.dirname(f), [], [os.path.basename(f)])]:
                for x in fs:
                    try: n += os.lstat(os.path.join(d, x)).st_blocks // 2048
                    except OSError: pass
        return n
    while not why:
        try: return p.wait(step), None
        except subprocess.TimeoutExpired: pass
        step = min(step * 1.5, .5)
        try:
            with open("/proc/%d/statm" % p.pid) as f: rss = int(f.read().split()[1]) // 256
        except (OSError, ValueError, IndexError): rss = 0
        if time.time() > end: why = "timeout"
        elif rss > rss_mb: why = "memory"
        elif step >= .2 and usage() > disk_mb: why = "disk"
    try: p.send_signal(signal.SIGALRM); p.wait(5 if why == "timeout" else 1)
    except Exception: pass
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait()
    return None, why

class Ctx:
    """One run of one check."""
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        self.evaluations = 0
        self.hashes = set()
        self.counters = {}
        self.samples = []
        self.violations = []      # (key, detail, replay dict)
        self.lock = threading.Lock()
    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, name):
        return os.path.join(self.dir, name)
    # ---------------------------------------------------------------- build
    def compile(self, out, srcs, flags, cxx="g++", libs=(), timeout=600):
        cmd = [cxx] + BASE + list(flags) + [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs] + ["-o", self.path(out)] + list(libs)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("compiling %s took longer than %d s" % (out, timeout))
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s\n%s" % (out, " ".join(cmd), r.stderr[-4000:]))
        return self.path(out)
    def compile_all(self, jobs):
        """jobs: list of dicts of compile() arguments, compiled in parallel"""
        res, errs = {}, []
        def go(j):
            optional = j.pop("optional", False)  # left out when it does not compile
            try: res[j["out"]] = self.compile(**j)
            except CheckError as e:
                if optional: self.count("builds_left_out")
                else: errs.append(e)
        ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs: raise errs[0]
        return res
    # ---------------------------------------------------------------- recording
    def violate(self, key, detail, **replay):
        with self.lock:
            self.violations.append((key, detail, replay))
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n
    def event(self, h, nontrivial=True):
        with self.lock:
            self.evaluations += 1
            if nontrivial: self.hashes.add(h)
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12: self.samples.append(s)
    # ---------------------------------------------------------------- execution
    def run_one(self, exe, name, args, env, timeout):
        out = self.path(name + ".json")
        err = self.path(name + ".err")
        cmd = [exe] + args + ["--out", out]
        wd = self.path(name + ".d"); os.makedirs(wd, exist_ok=True)
        for attempt in (1, 2):
            if os.path.exists(out): os.unlink(out)
            with open(err, "wb") as ef:
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, cwd=wd, env=env, start_new_session=True)
                rc, hung = guarded_wait(p, timeout, (wd, err))
            if hung != "timeout": break
        with open(err, "rb") as ef:
            ef.seek(0, 2); n = ef.tell(); ef.seek(max(0, n - 200000)); text = ef.read().decode("latin-1")
        return cmd, rc, hung, out, text
    def absorb(self, name, cmd, rc, hung, out, text):
        res = None
        if os.path.exists(out):
            try: res = json.load(open(out))
            except ValueError: res = None
        case = ""
        m = re.findall(r"HARNESS-CASE: (.*)", text)
        if m: case = m[-1]
        rep = dict(run=name, cmd=cmd, case=case, seed=SEED, tier=TIER)
        with self.lock:
            if res:
                self.evaluations += res["evaluations"]
                for k, v in res["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
                if len(self.samples) < 12: self.samples += res["samples"][:3]
                if os.path.exists(out + ".hashes"):
                    a = array.array("Q")
                    with open(out + ".hashes", "rb") as f: a.frombytes(f.read())
                    self.hashes.update(a)
                for v in res["violations"]:
                    self.violations.append((v["key"], v["detail"], rep))
        if hung in ("memory", "disk"):
            self.violate("runaway:" + hung, "run %s used up the %s; last case: %s" % (name, hung, case), **rep); return
        if hung:
            self.violate("hang", "run %s did not finish (twice); last case: %s" % (name, case), **rep); return
        if rc == 0 and res and res["complete"]: return
        if rc == 3 and res and res["violations"]: return
        rep["stderr"] = text[-6000:]
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|UndefinedBehaviorSanitizer): ([\w-]+)", text)
        if "WARNING: ThreadSanitizer:" in text:
            m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", text)
            kind = "tsan-" + (m.group(1) if m else "report").replace(" ", "-")
        elif "runtime error:" in text:
            kind = "ubsan"
            m = re.search(r"runtime error: (.*)", text)
            case = (m.group(1)[:200] if m else "") + " | " + case
        elif "hard rss limit exhausted" in text.lower(): kind = "memory-exhausted"
        elif m: kind = {"AddressSanitizer": "asan-", "LeakSanitizer": "leak-"}.get(m.group(1), "ubsan-") + m.group(2)
        elif "HARNESS-TERMINATE" in text: kind = "terminate"
        elif "HARNESS-SIGNAL" in text: kind = "signal"
        elif rc is not None and rc < 0 and -rc in (4, 6, 7, 8, 11): kind = "signal"
        elif "allocation-size-too-big" in text or "out of memory" in text: kind = "memory-exhausted"
        else:
            raise CheckError("run %s ended with %s and no verdict\n%s" % (name, rc, text[-3000:]))
        self.violate("crash:" + kind, "run %s died (%s); case: %s" % (name, kind, case), **rep)
    def shards(self, exe, n=NCPU, env=None, args=(), tag="", timeout=None, parallel=NCPU):
        """runs n shards of one harness, at most `parallel` at once"""
        timeout = timeout or (3000 if THOROUGH else 150)
        if any(k == "hang" for k, _, _ in self.violations): return  # already decided; do not wait again
        e = san_env(env)
        sem = threading.Semaphore(parallel); errs = []
        def go(i):
            with sem:
                name = (tag or os.path.basename(exe)) + "-%d" % i
                try:
                    r = self.run_one(exe, name, ["--seed", str(SEED), "--tier", TIER, "--shard", str(i), "--nshards", str(n)] + list(args), e, timeout)
                    self.absorb(name, *r)
                except CheckError as x: errs.append(x)
                except Exception as x: errs.append(CheckError("%s: %r" % (name, x)))
        ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs and not self.violations: raise errs[0]

def known_findings(prop):
    known = {}
    fn = os.path.join(VERIF, "known-findings.txt")
    for line in open(fn):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop: known[m.group(2)] = m.group(3)
    return known

def main():
    if len(sys.argv) < 2: sys.exit(__doc__)
    prop = sys.argv[1]
    sys.path.insert(0, VERIF)
    import checks
    spec = checks.CHECKS[prop]
    ctx = Ctx(prop)
    t0 = time.time()
    try:
        spec["run"](ctx)
    except CheckError as e:
        if not ctx.violations:
            print("CHECK-ERROR property=%s %s" % (prop, e)); ctx.cleanup(); sys.exit(2)
    finally:
        ctx.cleanup()
    known = known_findings(prop)
    seen_known, bad = {}, {}
    for key, detail, rep in ctx.violations:
        if key in known: seen_known.setdefault(key, detail)
        else: bad.setdefault(key, []).append((detail, rep))
    if not bad and ctx.evaluations == 0:
        print("CHECK-ERROR property=%s the monitors observed nothing" % prop); sys.exit(2)
    need = spec.get("need", [])
    missing = [c for c in need if not ctx.counters.get(c)]
    if missing and not bad:
        print("CHECK-ERROR property=%s inconclusive: never observed %s" % (prop, ", ".join(missing))); sys.exit(2)
    edir = os.path.join(VERIF, "evidence"); rdir = os.path.join(edir, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rdir, f))
    cov = {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.hashes), "rule": spec["rule"], "samples": ctx.samples or ["(none)"], "observed": dict(sorted(ctx.counters.items()))}
    evd = {"property": prop, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"), "coverage": cov,
           "assumptions": checks.COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": sum(len(v) for v in bad.values())}
    with open(os.path.join(edir, prop + ".json.tmp"), "w") as f: json.dump(evd, f, indent=1)
    os.replace(os.path.join(edir, prop + ".json.tmp"), os.path.join(edir, prop + ".json"))
    for key in sorted(seen_known): print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[key], key))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" % (prop, TIER, SEED, ctx.evaluations, len(ctx.hashes), time.time() - t0))
    if bad:
        for i, key in enumerate(sorted(bad)):
            if i >= 8: print("... and %d more violation keys" % (len(bad) - i)); break
            detail, rep = bad[key][0]
            fn = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(fn, "w") as f: json.dump({"property": prop, "key": key, "details": [d for d, _ in bad[key][:5]], "replay": rep}, f, indent=1)
            print("  %s: %s" % (key, detail[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    sys.modules.setdefault("run_check", sys.modules["__main__"])
    main()
