#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code's LLVM IR (qsym), assertions decided by Z3, counterexamples replayed natively",
            "level": p.get("level", "model_checking"),
            "level_note": "Holds for all values within the bounds: %s. Outside: %s. Trusts rustc/LLVM, Z3, qsym's memory, file and thread models and the stand-ins of harness/src/stubs.rs; sampled paths are re-run natively and compared." % (p["bounds"], p["outside"] or "nothing further"),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/ir.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything is reached through the public API. See DESIGN.md and known-findings.jsonl."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
