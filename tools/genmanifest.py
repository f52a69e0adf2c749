#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has scenarios (pNN.go) in mc/harness."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Stateless exploration of the real code: healer is instrumented mechanically and run under a controlled scheduler with virtual time and a "
        "virtual network against a fake Kafka cluster with an independent protocol codec; all executions with at most k deviations "
        "(scheduling, timers, faults, environment) and all small-scope inputs are enumerated and the oracle is checked on each. "
        "Holds within those bounds only; trusted: the instrumenter, the runtime, the reference codec.")
T = {
 "inputs": "exhaustive small-scope enumeration of inputs on the real code under the controlled runtime",
 "sched": "stateless model checking of the real code: all interleavings, timer firings and fault placements up to a deviation bound",
}
INPUT = {"P23", "P25", "P05", "P08", "P12", "P13", "P14", "P15", "P16", "P19", "P21"}
SKIP = set()
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SKIP and os.path.exists(os.path.join(V, "mc/harness", i.lower() + ".go")):
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": T["inputs" if i in INPUT else "sched"], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
