#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": [],
     "notes": "All checks: rsx (engine/), a symbolic executor for the LLVM IR rustc makes of /repo's current sources, with Z3 deciding path conditions and assertions; see DESIGN.md."}
if HOOKS: m["hooks"] = HOOKS
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
            "technique": "symbolic execution of the compiled code's LLVM IR, assertions and path conditions decided by Z3",
            "level": "model_checking",
            "level_note": "Holds for every input within: " + c["bounds"] + ". Trusted: rustc/LLVM, the engine's IR semantics (sampled paths and every counterexample are replayed on the compiled program), Z3." + (" " + c["note"] if c.get("note") else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
for i in list(CHECKS) + list(NOT_APPLICABLE): assert i in ids, i
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
