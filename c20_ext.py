"""Drives harness/c20_child.cpp from outside: real pipes, files and sockets, answers sent only after their prompt was seen."""
import os, random, select, socket, subprocess, termios, threading, time
from run_check import san_env, SEED, THOROUGH, CheckError

SPACE = set(map(chr, list(range(9, 14)) + [0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]))

def gen_char(r):
    while True:
        c = r.choice([r.randrange(0x20, 0x7F), r.randrange(0x80, 0x800), r.randrange(0x800, 0x10000), r.randrange(0x10000, 0x110000), 0x0A, 0x7FF, 0xFFFF, 0x10FFFF])
        if not 0xD800 <= c <= 0xDFFF: return chr(c)
def gen_text(r, n): return "".join(gen_char(r) for _ in range(r.randrange(n + 1)))
def gen_token(r, n):
    return "".join(c for c in (gen_char(r) for _ in range(1 + r.randrange(n))) if c not in SPACE) or "x"

def plan(r, mode):
    """returns script lines, list of steps (prompt bytes so far, answer text), expected log, stdout, stderr"""
    script, steps, log, out, err, pending = [], [], [], b"", b"", ""
    for _ in range(1 + r.randrange(10)):
        for _ in range(r.randrange(4)):
            k = r.randrange(6)
            if k < 3: t = gen_text(r, 1500 if r.random() < .1 else 14).encode(); script.append("o " + t.hex()); out += t
            elif k == 3: v = r.randrange(-10**12, 10**12); script.append("n %d" % v); out += str(v).encode()
            elif k == 4: t = gen_text(r, 14).encode(); script.append("e " + t.hex()); err += t
            else: script.append("g")
        if r.random() < .15: script.append("f"); log.append("f")
        k = r.randrange(4)
        if k == 0: a = gen_text(r, 2000 if r.random() < .1 else 30).replace("\n", " "); script.append("l"); steps.append((len(out), a + r.choice(["\n", "\r\n"]))); log += ["?", a.encode().hex()]
        elif k == 1: a = gen_token(r, 12); lead = r.choice(["", " ", "\n  ", "\t"]); script.append("w"); steps.append((len(out), lead + a + r.choice([" ", "\n"]))); log += ["?", a.encode().hex()]
        elif k == 2: a = gen_char(r); script.append("c"); steps.append((len(out), a)); log += ["?", a.encode().hex()]
    tail = gen_text(r, 5000 if r.random() < .2 else 40).encode() if mode not in ("interactive", "terminal") or r.random() < .5 else b""
    if r.random() < .7: script.append("a"); log.append(tail.hex())
    else: tail = b""
    t = gen_text(r, 1200 if r.random() < .3 else 20).encode(); script.append("o " + t.hex()); out += t
    t = gen_text(r, 20).encode(); script.append("e " + t.hex()); err += t
    if r.random() < .5: script.append("x")
    return script, steps, log, out, err, tail

def blocked_reading(pid):
    try: return open("/proc/%d/syscall" % pid).read().startswith("0 0x0 ")
    except OSError: return None

def session(ctx, exe, i):
    r = random.Random(SEED * 1000003 + i)
    mode = r.choice(["interactive", "interactive", "chunks", "file", "socket", "terminal", "terminal"])
    if mode == "terminal": # a terminal that hands over whole lines, or what was typed before ^D; nothing else is special
        try: wfd, sin = os.openpty()
        except OSError: mode = "interactive"; ctx.count("no_terminal_available")
        else:
            t = termios.tcgetattr(sin); t[0] = t[1] = 0; t[3] = termios.ICANON; vd = os.fpathconf(sin, "PC_VDISABLE"); t[6] = [bytes([vd])] * len(t[6]); t[6][termios.VEOF] = b"\x04"; termios.tcsetattr(sin, termios.TCSANOW, t)
    script, steps, log, out, err, tail = plan(r, mode)
    base = ctx.path("ext-%d" % i); sf, lf = base + ".script", base + ".log"
    open(sf, "w").write("\n".join(script) + "\n")
    data = b"".join(a.encode() for _, a in steps) + tail
    what = "session %d (%s) script %s" % (i, mode, " | ".join(s[:40] for s in script)[:600])
    rep = dict(session=i, mode=mode, script=script[:200], seed=SEED)
    def bad(key, d): ctx.violate(key, d + " | " + what, **rep)
    if mode == "file":
        open(base + ".in", "wb").write(data); fin = open(base + ".in", "rb"); sin = fin.fileno(); wfd = None
    elif mode == "socket":
        a, b = socket.socketpair(); sin = a.fileno(); wfd = os.dup(b.fileno()); b.close()
    elif mode != "terminal":
        sin, wfd = os.pipe()
    ofile = open(base + ".out", "wb") if mode == "file" else None
    p = subprocess.Popen([exe, sf, lf], stdin=sin, stdout=ofile or subprocess.PIPE, stderr=subprocess.PIPE, env=san_env(), start_new_session=True)
    if mode == "file": fin.close()
    elif mode == "socket": a.close()
    else: os.close(sin)
    errbuf, outbuf, closed = bytearray(), bytearray(), [False]
    def drain_err():
        while True:
            b = os.read(p.stderr.fileno(), 65536)
            if not b: return
            if len(errbuf) < (1 << 20) + len(err): errbuf.extend(b)
    te = threading.Thread(target=drain_err); te.start()
    verdict = None
    def runaway(): return len(outbuf) > len(out) + (1 << 22) or (ofile and os.fstat(ofile.fileno()).st_size > len(out) + (1 << 26))
    def drain(t):
        n = 0
        while not closed[0] and select.select([p.stdout], [], [], t)[0]:
            b = os.read(p.stdout.fileno(), 65536)
            if not b: closed[0] = True; break
            outbuf.extend(b); n += len(b); t = 0
            if runaway(): p.kill(); break
        return n
    def feed(b):
        o = 0
        while o < len(b):
            k = min(len(b) - o, r.choice([1, 2, 3, 7, 100, 5000 if mode != "terminal" else 1000]))
            try:
                if mode == "terminal":
                    c = b[o:o + k]; o += k; c += b"\x04" if c[-1:] != b"\n" else b""; ctx.count("terminal_chunks")
                    while c: c = c[os.write(wfd, c):]
                else: o += os.write(wfd, b[o:o + k])
            except OSError: return
            if r.random() < .3: drain(0)
            if r.random() < .05: time.sleep(.001)
    deadline = time.time() + 60
    if mode in ("interactive", "terminal"):
        for need, answer in steps:
            still = None
            while len(outbuf) < need and not closed[0]:
                if drain(.02): still = None
                if len(outbuf) >= need: break
                b = blocked_reading(p.pid)
                # stopped in a read from standard input for so long that no answer can be on its way to it: whatever it has written by now is all there is
                if not b: still = None
                elif still is None: still = time.time()
                elif time.time() > still + 10:
                    drain(0)
                    if len(outbuf) < need and blocked_reading(p.pid): verdict = ("prompt-not-visible", "the process waits for input with %d of %d inserted bytes visible" % (len(outbuf), need)); break
                if time.time() > deadline: verdict = ("no-progress", "%d of %d bytes visible, no progress for long" % (len(outbuf), need)); break
            if verdict or closed[0]: break
            ctx.count("answers_sent_after_their_prompt"); feed(answer.encode())
        if not verdict and not closed[0]: feed(tail)
    elif wfd is not None: feed(data)
    if wfd is not None and mode != "terminal": os.close(wfd)
    if verdict: p.kill()
    if ofile:
        while p.poll() is None:
            try: p.wait(.2)
            except subprocess.TimeoutExpired:
                if runaway(): p.kill()
                elif time.time() > deadline: verdict = verdict or ("no-progress", "did not exit"); p.kill()
        ofile.close(); outbuf.extend(open(base + ".out", "rb").read(len(out) + (1 << 23)))
    else:
        while not closed[0]:
            drain(.02 if mode == "terminal" else 1)
            if mode == "terminal" and not closed[0]:
                try: os.write(wfd, b"\x04") # the end of the input, as often as it is asked for
                except OSError: pass
            if time.time() > deadline: verdict = verdict or ("no-progress", "did not exit"); p.kill(); break
    rc = p.wait(); te.join()
    if mode == "terminal": os.close(wfd)
    if p.stdout: p.stdout.close()
    p.stderr.close()
    if verdict and verdict[0] == "no-progress": return verdict + (rep,)
    if verdict: bad(*verdict); return
    if len(outbuf) > len(out) + (1 << 22): bad("stdout-content", "more than %d bytes instead of %d" % (len(out) + (1 << 22), len(out))); return
    e = bytes(errbuf)
    if rc == 76 or b"ERROR: AddressSanitizer" in e or b"runtime error:" in e: bad("crash:sanitizer", e[-1500:].decode("latin-1")); return
    if rc < 0: bad("crash:signal", "ended by signal %d" % -rc); return
    if rc: raise CheckError("c20_child ended with %d: %s" % (rc, e[-500:]))
    if bytes(outbuf) != out:
        k = next((j for j in range(min(len(out), len(outbuf))) if out[j] != outbuf[j]), min(len(out), len(outbuf))); bad("stdout-content", "%d bytes instead of %d, first difference at %d" % (len(outbuf), len(out), k))
    if e != err: bad("stderr-content", "%d bytes instead of %d" % (len(e), len(err)))
    got = open(lf).read().split("\n")[:-1]
    if got != log:
        k = next((j for j in range(min(len(got), len(log))) if got[j] != log[j]), min(len(got), len(log))); bad("stdin-content", "record %d is %r instead of %r" % (k, (got[k:k + 1] or ["missing"])[0][:80], (log[k:k + 1] or ["nothing"])[0][:80]))
    ctx.count("sessions_" + mode); ctx.event((SEED << 32) + i)
    if i < 2: ctx.sample(what[:250])
    for f in (sf, lf, base + ".in", base + ".out"):
        if os.path.exists(f): os.unlink(f)

def run(ctx, exe):
    n = 3000 if THOROUGH else 400
    errs = []; it = iter(range(n)); lock = threading.Lock()
    def worker():
        while len(ctx.violations) < 20:
            with lock: i = next(it, None)
            if i is None: return
            try:
                v = session(ctx, exe, i)
                if v: v = session(ctx, exe, i)
                if v: ctx.violate("hang", v[1], **v[2])
            except CheckError as x: errs.append(x)
            except Exception as x: errs.append(CheckError("session %d: %r" % (i, x)))
    ts = [threading.Thread(target=worker) for _ in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs and not ctx.violations: raise errs[0]
