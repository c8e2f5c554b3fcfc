#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS, NOT_APPLICABLE, HOOKS

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
if HOOKS:
    m["hooks"] = HOOKS
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"] + ("; thorough tier also coverage-guided (libFuzzer)" if any("fuzz" in b for b in c["bins"]) else ""),
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet (being built)")})
m["notes"] = "See DESIGN.md. Known findings and repaired defects: KNOWN_FINDINGS."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
