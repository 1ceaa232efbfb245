#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
THREADS = {"C01", "C02", "C16", "C17", "C18", "C19", "C20", "C21"}
NOTE = ("Every behaviour of small worlds of the TLA+ specification (spec/Sys.tla over spec/Metrix.tla) up to the stated depth keeps the property (spec/Props.tla, stated over histories, independent of the transition rules); "
        "a sample of exactly those behaviours, and long random traces%s, are executed by the real library and every recorded result is checked by TLC to be one the specification allows. "
        "Trusted: TLC, the harness and its controlled clock, the trace conversion; beyond the explored depths and sampled traces the property is not shown.")
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s quick" % i,
        "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "technique": "TLA+ specification: TLC explores all behaviours of small worlds; conformance of the code by replaying these behaviours and by trace checking (TLC) of recorded runs" + (" with several threads" if i in THREADS else ""),
        "level": "model_checking",
        "level_note": NOTE % (" with several threads (gated driver threads, waiting senders)" if i in THREADS else ""),
    })
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
