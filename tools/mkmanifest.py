#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist in /verif/src."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "P05": "stateless model checking of the real code: all placements of refill boundaries and chunk schedules, memory route as reference",
 "P07": "exhaustive bounded input-space exploration of the real readers under AddressSanitizer with termination and exception monitors",
 "P08": "exhaustive enumeration of crash (truncation) points on the real readers",
 "P17": "exhaustive operation-history exploration of the real code against an ordered-list model",
 "P19": "exhaustive operation-history exploration, differential against fresh objects",
 "P20": "exhaustive operation-history exploration of the real hash table against a reference map",
 "P21": "exhaustive operation-history exploration of the real arena with disjointness and content monitors",
 "P24": "stateless model checking of the real code: exhaustive enumeration of call interleavings, nestings in callbacks and preemption-bounded thread schedules under a controlled scheduler; happens-before race detection over all pairs justifies the reduction to function-level switch points",
 "P28": "stateless model checking of the real code: exhaustive enumeration of assignments of process and stream settings to the calls of a history, differential against the default settings",
 "P29": "exhaustive enumeration of families of inputs and histories on the real code with exact counters of executed basic blocks, moved bytes and allocated memory as monitors",
 "P25": "exhaustive fault-point enumeration on the real code with live-object and live-byte monitors",
}
DEF = "stateless model checking of the real code: exhaustive enumeration of a bounded space, reference model as oracle"
NOTE = ("Every choice sequence of every scenario listed in the evidence file was executed on the library built from /repo and compared with an independent reference. "
        "Assumes the behaviour outside the stated bounds follows the behaviour inside; trusts g++, AddressSanitizer and the reference model in /verif/src.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "src", i + ".cpp")):
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEF), "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "the harness for this property is not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check tools/mkmanifest.py && g++ --version", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries fix: commits only. Checks compile /repo's working tree themselves into /verif/out (git-ignored)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
