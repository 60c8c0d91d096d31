#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness directory."""
import json, glob, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
na = json.load(open(H + "/not_applicable.json")) if os.path.exists(H + "/not_applicable.json") else {}
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in na:
        nas.append({"property": i, "reason": na[i]})
    elif glob.glob(H + "/harness/%s_*.cpp" % i):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "bounded symbolic execution of the real code (LLVM IR) with z3 deciding every branch and assertion; counterexamples replayed natively",
                       "level": "other", "level_note": "SMT verdict over all real values of the symbolic inputs and all user functions (uninterpreted), within the stated bounds; rounding abstracted to real arithmetic"})
    else:
        nas.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": nas}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nas), "n/a")
