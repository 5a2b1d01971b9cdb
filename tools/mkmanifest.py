#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the parts of the driver and the notes below."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import driver

ENUM = ("Exhaustive within stated bounds on the real code; every case is compared with an independent reference model "
        "written from the documentation. Trusted: the reference model, the Go toolchain. Not covered: inputs outside the alphabets and bounds in DESIGN.md.")
TECH = {
    "T04": "explicit enumeration of call histories against fresh-process results",
    "T05": "stateless model checking: preemption-bounded enumeration of thread schedules of the real parser",
    "T06": "exhaustive enumeration of inputs and operation histories with an allocation-balance oracle under AddressSanitizer",
    "T07": "explicit-state breadth-first search over tree operations against a model of trees",
    "X01": "bounded exhaustive enumeration of tool invocations against a reference model",
    "L08": "bounded exhaustive enumeration of tool invocations against a reference model",
    "L09": "explicit enumeration of call histories against fresh-process results, and stateless model checking: preemption-bounded enumeration of thread schedules",
}
NOTE = {
    "L08": ENUM + " MongoDB is a stand-in that speaks its wire protocol and matches documents as its manual says; SQLite and the GraphQL server are the real ones.",
    "L09": "All histories up to the stated lengths and all schedules of 2 threads up to the stated preemption bound, scheduling points at every statement of the library; the ANTLR runtime is entered but not itself instrumented (the race detector covers it). Trusted: the scheduler and the instrumentation.",
    "T05": "All schedules of 2 threads up to the stated preemption bound, scheduling points at every basic block of the C code, every statement of the Go code and, in a part of its own, every load and store of the C code; trusted: the scheduler and the instrumentation. Weak memory orders are not modelled.",
}
REASON = {}

def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in driver.PARTS:
            na.append({"property": i, "reason": REASON.get(i, "its check is still being built")})
            continue
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": TECH.get(i, "bounded exhaustive enumeration of inputs against a reference model (explicit-state)"),
                       "level": "model_checking", "level_note": NOTE.get(i, ENUM)})
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: the harnesses use its public packages and build overlays."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

main()
