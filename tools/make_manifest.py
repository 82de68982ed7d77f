#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and spec.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from spec import SPEC
NOTE = ("Exploration: every generated execution of the code in /repo's working tree, built with sanitizers, is judged by "
        "an oracle that does not share code with the library; nothing is claimed for inputs that were not run. "
        "Trusted: compiler and sanitizer runtimes, Eigen, libm, the long double reference in src/.")
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in SPEC:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    s = SPEC[p]
    checks.append({"property": p,
                   "quick_cmd": f"python3 vrun.py {p} --tier quick",
                   "thorough_cmd": f"python3 vrun.py {p} --tier thorough",
                   "technique": s.get("technique", "runtime monitoring under ASan+UBSan: online reference oracle over generated workloads"),
                   "level": "exploration",
                   "level_note": s.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "g++ --version && python3 -c \"import spec\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors observe the public API and the process (sanitizers, allocation counters). Commits in /repo are fix: commits only, listed in known-findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
