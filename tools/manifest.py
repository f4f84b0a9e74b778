#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the check modules' one-line descriptions."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = (
    "Decides the property for every behaviour inside the stated bound by running"
    " the real code; trusts the reference model in mcheck/, numpy and the"
    " interpreter. Beyond the bound only the listed large structured families"
    " are covered."
)
TECH = {}
with open(os.path.join(VERIF, "tools", "techniques.txt")) as fh:
    for ln in fh:
        if ln.strip():
            k, v = ln.split(":", 1)
            TECH[k.strip()] = v.strip()
props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(VERIF, "mcheck", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"VERIF_TIER=quick python3 mc.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 mc.py {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "explicit-state model checking: " + TECH[i],
                "level": "model_checking",
                "level_note": LEVEL_NOTE,
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import numpy, numba, pandas\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks drive the public API of /repo's working tree.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
