#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties; CLAIMED are those with a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V)
CLAIMED = json.load(open(os.path.join(V, "tools", "claimed.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    c = CLAIMED.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; harness programs in harness/ are built from /repo's working tree by every check. No hooks in /repo are needed: the public interface exposes the abstract state."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
