#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pstatic import rules  # noqa: E402

NA = {
    "N01": "Statement about rounding errors of numerical results over all floating point inputs and about the accuracy of libm and LLVM "
           "code: a runtime quantity that no static argument over this source bounds.",
    "N02": "The behaviour in question is computed inside SymPy's constructors (automatic evaluation), which are not part of this source.",
}
NOTE = ("Decides the stated obligations over all inputs from the current source; constructs the analysis does not model are reported as "
        "UNDECIDED and counted in the evidence, never as violations (none on the current tree). Trusts the modelling of Python semantics in "
        "pstatic/engine.py and the documented behaviour of the standard library.")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    c = rules.CHECKS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "other", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "All checks are static analyses of /repo/src; nothing of protosym is imported or executed. See DESIGN.md."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
