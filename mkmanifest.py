#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl (run by hand when checks are added)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from specs import PROPS, NA, NOTES
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        tv = PROPS[i].get("level", "model_checking")
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled LLVM IR of the real code with Z3 (bounded, all inputs), counterexamples replayed natively"
                         + (PROPS[i].get("technique", "")),
            "level": tv,
            "level_note": "Bounded: " + PROPS[i]["bounds"] + ". Trusts rustc's LLVM IR, the executor's IR semantics (validated by native replay on every run) and Z3.",
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": NOTES["hooks"], "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
