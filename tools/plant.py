#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo: plant.py <bugs.py> [id...]
bugs.py defines BUGS, a list of dicts (id, property, edits=[(file, old, new)], demo (C++ source), needs, what_it_breaks,
optionally demo_sh). Each bug that builds, passes the stable tests and has a demonstration that passes without and fails
with it is written to /verif/seeded/<id>/. The checks never use this file."""
import json, os, shutil, subprocess, sys, runpy
SC = "/tmp/plant/repo"; OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SH = """#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 2; trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -w -O1 %s -DCMP_CONFIG_HEADER_ONLY=true -Iapi/include -Iapi/src "$here/demo.cpp" -o "$d/demo" || exit 2
cd "$d" && timeout 120 ./demo
"""
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def setup():
    shutil.rmtree("/tmp/plant", ignore_errors=True); os.makedirs("/tmp/plant/opt")
    sh("cp -a /repo " + SC + " && rm -rf " + SC + "/_build")
    for f in os.listdir("/opt/vp"):
        p = "/opt/vp/" + f
        if os.path.isfile(p):
            t = open(p, errors="replace").read().replace("/repo", SC).replace("/opt/vp", "/tmp/plant/opt"); open("/tmp/plant/opt/" + f, "w").write(t)
def tests():
    r = sh("bash /tmp/plant/opt/test.sh /tmp/plant/out.json")
    if not os.path.exists("/tmp/plant/out.json"): return None, r.stdout[-1500:] + r.stderr[-1500:]
    o = json.load(open("/tmp/plant/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    return o, base
def passed(o): return set(o.get("passed", o.get("pass", [])))
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; want = sys.argv[2:]
    setup()
    o, base = tests()
    if o is None: sys.exit("baseline does not build: " + base)
    good = passed(o); print("baseline passes", len(good), list(o)[:5])
    baselines = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for b in bugs:
        if want and b["id"] not in want: continue
        sh("git -C %s checkout -q -- ." % SC)
        d = "/tmp/plant/" + b["id"]; os.makedirs(d, exist_ok=True)
        if "demo" in b: open(d + "/demo.cpp", "w").write(b["demo"])
        for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        open(d + "/demo.sh", "w").write(b.get("demo_sh", SH % b.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        sh("bash /tmp/plant/opt/build.sh")
        r0 = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
        if r0.returncode: print(b["id"], "REJECTED: demo fails on the unchanged tree", r0.returncode, r0.stdout[-600:], r0.stderr[-1200:]); continue
        bad = False; orig = False
        for f, old, new in b["edits"]:
            p = SC + "/api/" + f; t = open(p).read()
            if t.count(old) != 1: print(b["id"], "REJECTED: %s matches %d times: %r" % (f, t.count(old), old[:60])); bad = True; break
            open(p, "w").write(t.replace(old, new))
            bt = set(sh("git -C /repo show %s:api/%s" % (baselines, f)).stdout.split("\n"))
        if bad: continue
        diff = sh("git -C %s diff" % SC).stdout
        removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in removed if l not in bt]
        if not [l for l in removed if l in bt and l.strip() not in ("{", "}", ");", "")]: print(b["id"], "WARNING: changes no original line", removed)
        o, e = tests()
        if o is None: print(b["id"], "REJECTED: does not build", e); continue
        lost = good - passed(o)
        if lost: print(b["id"], "REJECTED: tests fail", sorted(lost)[:4]); continue
        try: r1 = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300); rc = r1.returncode
        except subprocess.TimeoutExpired: rc = 124
        if rc == 0: print(b["id"], "REJECTED: demo passes with the bug", r1.stdout[-300:]); continue
        t = OUT + "/" + b["id"]; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        open(t + "/patch.diff", "w").write(diff)
        for f in os.listdir(d): shutil.copy2(d + "/" + f, t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(t + "/meta.json", "w"), indent=1)
        print(b["id"], "KEPT, demo exit", rc, r1.stdout[-200:].strip(), flush=True)
    shutil.rmtree("/tmp/plant", ignore_errors=True)
main()
