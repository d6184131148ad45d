#!/usr/bin/env python3
"""Write MANIFEST.json from registry.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if i in registry.PROPERTIES:
        p = registry.PROPERTIES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py --property {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py --property {i}",
            "technique": "bounded symbolic execution of the real Python code; z3 decides every branch and assertion",
            "level": "model_checking",
            "level_note": p["note"] + " Bounded: " + p["bounds_text"]
            + " Trusts: the instrumentation and its models of str/int/re/dict (every run replays sampled paths and every "
              "counterexample on the uninstrumented package), lxml, rustworkx, z3.",
        })
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile check.py registry.py symx/*.py props/*.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "The checks import svdsuite from /repo/src at every run and rewrite its syntax trees in memory (symx/instr.py); "
             "nothing is built into /repo and no hooks are needed.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
