#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        specs = sorted({x.module + ".tla" for x in c.get("mc", [])} | {x.module + ".tla" for x in c.get("traces", [])})
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check " + p,
                            "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": c.get("technique", "TLA+ specification (%s) model-checked with TLC; conformance of the real code by recorded traces judged by TLC" % ", ".join(specs)),
                            "level": "model_checking", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "No check has been built yet.")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
