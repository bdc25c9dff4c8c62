#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ machine (spec/MKHE.tla), TLC exhaustive + generated behaviours replayed into the real code"
NOTE = ("TLC checks the machine's own laws exhaustively within small constants; behaviours TLC generates are executed step by step on the real library built from the "
        "working tree, comparing participants, level, scale, slot values (independent reference decryption), outcome, frame and storage after every step. "
        "Bounded by the parameter sets and number of behaviours in the evidence; trusts lattigo's ring arithmetic, sampler and encoder.")
CHECKS = {}
for i in list(range(1, 14)) + [15]:
    CHECKS["C%02d" % i] = (REPLAY, NOTE)
exec(open(os.path.join(V, "tools", "manifest_extra.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
doc = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        doc["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                              "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        doc["not_applicable"].append({"property": p, "reason": NA.get(p, "its check is still being built")})
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
