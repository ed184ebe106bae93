#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
import run
have = run.table()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        note = getattr(have[i], "note", None) or "TLC checks the specification's invariants exhaustively for small constants; executions of the real code (compiled from /repo's tree, driven from the seed) are validated event by event against the same specification. Trusts the harness's log and TLC; unexplored inputs are not covered."
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique="TLA+ specification checked with TLC, bound to the code by trace validation", level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harnesses compile /repo's headers and sources directly. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
