#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"env VERIF_TIER=thorough python3 run.py {i}",
            "technique": s.get("technique", "property-based testing: generated operation sequences against a reference model, shrunk replays"),
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Random search over generated cases with the bounds stated in DESIGN.md; assumes the compilers, the sanitizers and the reference model in the harness."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -c \"import checks\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks build /repo's sources out of tree into /verif/.build (ignored)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
