#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
sys.path.insert(0, H)
NA = {}
NOTE = ("TLC decides; the bounded model of the specification is explored exhaustively, and every recording of the real code "
        "(inputs enumerated from the specification and seeded random ones) must be a behaviour of the specification. "
        "Nothing is claimed beyond the bounds and the recorded cases; trusts TLC, the recorder in mbv/props and the integer scaling of positions.")
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, "mbv", "props", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification: exhaustive TLC model check + TLC-enumerated replay and trace validation of the real code",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "specification and conformance check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all observations are made at the public API and its output files."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
