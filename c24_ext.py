"""C24: window harness on GTK's broadway backend (a display server without a screen, reached through a Unix socket in the scratch directory)."""
import os, subprocess, time
from run_check import REPO, ASAN, NCPU, THOROUGH, CheckError
def run(ctx):
    pc = lambda o: subprocess.run(["pkg-config", o, "gtk4"], capture_output=True, text=True, check=True).stdout.split()
    exe = ctx.compile("c24", ["c24.cpp"] + [REPO + "/api/src/cmp/%s/definitions.cpp" % p for p in ("core", "unicode", "io", "desktop_gui")], ASAN + ["-DCMP_CONFIG_HEADER_ONLY=false"] + pc("--cflags"), libs=pc("--libs"))
    x = ctx.path("x"); os.makedirs(x, mode=0o700)
    env = {"XDG_RUNTIME_DIR": x, "HOME": x, "XDG_CONFIG_HOME": x, "XDG_CACHE_HOME": x, "XDG_DATA_HOME": x}
    d = subprocess.Popen(["gtk4-broadwayd", "-u", x + "/http", ":7"], env=dict(os.environ, **env), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for _ in range(300):
            if any(f.startswith("broadway") for f in os.listdir(x)): break
            if d.poll() is not None: raise CheckError("gtk4-broadwayd ended with %s" % d.returncode)
            time.sleep(.1)
        else: raise CheckError("gtk4-broadwayd does not listen")
        env.update(GDK_BACKEND="broadway", BROADWAY_DISPLAY=":7", GSK_RENDERER="cairo", GSETTINGS_BACKEND="memory", GTK_A11Y="none", GIO_USE_VFS="local", DBUS_SESSION_BUS_ADDRESS="unix:path=" + x + "/none",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=76:detect_stack_use_after_return=0:hard_rss_limit_mb=3000")
        # GTK itself keeps some 300 kB per window that was painted on this backend: many processes rather than long ones
        ctx.shards(exe, n=NCPU * (12 if THOROUGH else 1), env=env, timeout=None if THOROUGH else 300)
        if d.poll() is not None:
            del ctx.violations[:]; raise CheckError("gtk4-broadwayd ended during the run")
    finally:
        d.kill(); d.wait()
