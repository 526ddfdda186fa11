#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import checks
m = {"version": 1, "setup_cmd": "g++ --version && clang++ --version && python3 --version", "checks": [], "not_applicable": []}
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    c = checks.CHECKS.get(p)
    if not c:
        m["not_applicable"].append({"property": p, "reason": "no check built yet"}); continue
    m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 run_check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + p,
        "technique": c["technique"], "level": c["level"],
        "level_note": c["note"] or "Held on the executions counted in the evidence file, nothing more. " + c["rule"] + " Trusts the compiler, the sanitizer runtimes and the harness's reference model."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
