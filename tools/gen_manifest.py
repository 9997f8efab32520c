#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
cfg = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
m = {"version": 1,
     "setup_cmd": "cd /verif/govc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o govc . && cd /repo && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly go build ./expreduce/atoms ./expreduce/matcher ./expreduce/parser",
     "checks": [], "not_applicable": [],
     "notes": "Contracts in /verif/contracts, verifier in /verif/govc (go/ssa -> SMT), replay harnesses in /verif/harness, driver /verif/check.py."}
for p in props:
    i = p["id"]
    if i in cfg:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": cfg[i].get("technique", "contract-based deductive verification of the Go source (govc: weakest preconditions over go/ssa, z3/cvc5), with contract replay on concrete inputs"),
                            "level": cfg[i].get("level", "proof"), "level_note": cfg[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "not claimed yet: contracts under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
