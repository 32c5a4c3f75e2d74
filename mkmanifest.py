#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os
from specs import PROPS, NOT_APPLICABLE, LEVEL_NOTE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "technique": p.get("technique", "symbolic execution of the code's LLVM bitcode with Z3, counterexamples replayed natively"),
            "level": p.get("level", "model_checking"), "level_note": p.get("note", LEVEL_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
