#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and check.py's table of worlds."""
import json, os
import check
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
 "P01": "Seeded search over histories of every operation on dynamic vectors and matrices (5 type universes) with allocation failures, element exceptions and bad sizes at chosen points; every load and store is checked against the simulated heap, every block and element against a ledger.",
 "P02": "Same histories, biased to failures: after each failed call all ten live objects are compared bit for bit with their state before it, the exception is classified, the fault is lifted and the call repeated.",
 "P03": "Same histories against an executable array model; exact for element transport, to a stated rounding tolerance for arithmetic.",
 "P04": "Histories biased to moves, swaps and returns by value, run with every allocation denied; allocator and element-ledger counts and storage addresses are compared.",
 "P05": "Every registered fixed-size and view operation is run on random operands while every allocation of the process fails; any request is a violation.",
 "P06": "Histories over views into fenced caller arrays (guard zones and neighbouring cells trap any access outside the viewed elements).",
 "P07": "Seeded schedules of 2-4 simulated threads calling registered functions on shared constants; vector-clock race detection at every access, bitwise comparison with serial reference runs.",
 "P08": "Seeded schedules of threads on private objects and disjoint views with allocation failures in some threads; race detection, spill detection and bitwise comparison with isolated runs.",
 "P09": "Histories of registered calls (with failing calls between them) compared bit for bit with each call run in a fresh process and with permuted order, dirty stacks and a different heap filling; and histories over live dynamic objects with and without a history of other objects before them.",
 "P10": "Random functions run on simulated sources (constant, alternating extremes, sticky, counter, uniform, throwing); range, length, angle, termination and exception rules checked.",
 "P11": "Runs repeated from equal srand and generator states inside differing histories; draws of rand, random_device and user generators are counted per call, in the random-function world and around every call of the other two catalogues.",
 "P12": "Printing to simulated stream buffers that write short, fail or throw at every chosen byte; output compared with the healthy text and an independent rendering.",
 "P13": "Stored expressions over temporaries evaluated after heap churn and stack scribbling, copied and moved, under allocation failures; use of dead storage traps.",
 "P14": "Histories on containers with two distinct user allocators that verify pointer, count and owner of every block and fail on request.",
 "P15": "Step bounds per call on special operand values (NaN, infinities, zeros, denormals) and schedules in which a thread is suspended at a random access for the rest of the run.",
}
checks = []
for p in props:
    if p["id"] in check.PLAN:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py --property %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py --property %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "deterministic simulation with fault injection", "level": "exploration",
                       "level_note": NOTE[p["id"]] + " Exploration, not proof; trusts the simulator (sim/sim.cpp) and g++'s access instrumentation."})
PURE = "a pure function of its operands: no schedule, clock, fault, crash, I/O or history changes its result, so simulation could only sample inputs as a unit test does"
NA = {"P27": "decided by the compiler before any execution exists; there is nothing to simulate"}
na = [{"property": p["id"], "reason": NA.get(p["id"], PURE) if int(p["id"][1:]) > 20 else "no check built yet"} for p in props if p["id"] not in check.PLAN]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are link-time (heap, rand, locks, clocks) and compile-time instrumentation of the headers. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
