#!/usr/bin/env python3
"""writes MANIFEST.json from tools/props.py (claimed properties) and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "env VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": "contract-based deductive verification of the extracted real functions with Verus/Z3",
        "level": "proof",
        "level_note": P.get("note") or "Every obligation of the contracts on the functions extracted from /repo on each run is discharged by Verus for all inputs. Trusted: the extractor's counted rewrites, the raw-memory interface (alloc/dealloc/read/write/copy with ghost permissions) and the standard-library contracts listed in evidence. A short bounded search on the real crate runs besides and is never counted as proved.",
        "theorems": P.get("lemmas", []),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "not claimed yet: contracts for this part are still being written")} for i in ids if i not in PROPS],
     "notes": "No hooks: the verified text is extracted from /repo's sources on every run (vx), and the search crate (replay) uses only public items."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
