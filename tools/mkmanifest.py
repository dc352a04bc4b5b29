#!/usr/bin/env python3
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {}
DEFAULT = ("TLA+ specification model checked with TLC; spec behaviours replayed into the code and recorded traces validated by TLC",
           "model_checking",
           "The specification is explored exhaustively within small constants; the code is bound to it by replaying every transition of the small model and by TLC validation of seeded random histories of the real code (ASan build). Assumes the driver's projection of API results is faithful; inputs beyond the generated ones are not covered.")
CONC = ("TLA+ specification model checked with TLC; traces of the real code under a controlled deterministic scheduler validated by TLC",
        "model_checking",
        "The specification is explored exhaustively within small constants (safety and liveness); the unmodified code runs under our scheduler that controls every lock, wait and shared memory access (sequentially consistent interleavings), with bounded-preemption enumeration and seeded random schedules; every distinct trace must be a behaviour of the specification. Weak memory effects are not explored.")
for p in ("C02", "C07", "C08", "C09", "C10", "C11", "C26", "C28", "C21"):
    TECH[p] = CONC
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        t, lv, note = TECH.get(i, DEFAULT)
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is observed through its API, callbacks, link-time wrapping and compiler instrumentation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
