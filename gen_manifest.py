#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/plan.json (development aid)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(os.path.join(here, "sim", "plan.json")))
note = ("Seeded search, not proof. The real library code runs under a scheduler that may preempt it at every memory access, atomic operation and allocation; allocation failures, throwing element "
        "constructors/copies/updaters, message loss/duplication/delay, client crashes, dirty memory and address reuse are injected. Oracle: %s. Assumes sequentially consistent memory (plus a "
        "happens-before race detector), non-throwing moves, and pure comparators.")
oracle = {
 "C01": "a fingerprint of everything readable through each persistent tree, taken when it is created and compared at every later audit, and a reference sequence",
 "C02": "happens-before race detection on every instrumented access, destruction included, and comparison of each client's results with a serial execution of the same plan",
 "C03": "simulated heap with freed/unallocated state per byte, element life cycle checks, node count of the last tree against live blocks, and no live block or element at the end",
 "C04": "fingerprint of the tree and its snapshots before and after each failed allocation (every allocation of the operation in turn), success of the repetition, process not terminated",
 "C05": "fingerprint before and after each rejected or throwing operation, exception type, reference sequence afterwards",
 "C06": "sorted reference map checked after operations and by lookups of present and absent keys",
 "C07": "reference sequence checked by index lookups, positions of iterators and iterator differences",
 "C08": "fold over the reference sequence",
 "C09": "extremum over the reference sequence for the whole tree and for forward and reverse ranges",
 "C10": "reference position of every held iterator",
 "C11": "reference sequence walked forwards, backwards and by jumps; order of iterators against positions",
 "C12": "reference deque and size, including arguments that refer to elements of the same tree",
 "C13": "fingerprint of source and copy after every copy, conversion, assignment, move and swap, and reference sequences of both afterwards",
 "C14": "number of simulated node allocations of every operation against the bound that depth, ownership and kind of operation give",
 "C15": "reference map from terms to sets of documents, race detection between clients that share indexes",
 "C16": "equality of the transcript of all results between executions of one plan with different memory contents, address layouts and reuse orders",
 "C17": "reference sequence with the named operation applied, values read through held proxies",
 "C19": "steps (memory accesses) of each kind of operation in a large tree against the steps of the same kind in a small tree built the same way, scaled by the ratio of depths; depth against the logarithm of the ratio of sizes",
}
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "checks": [{
    "property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p,
    "technique": "deterministic simulation with fault injection: seeded schedules and faults over the real library, reference-model oracle",
    "level": "exploration", "level_note": note % oracle[p]} for p in sorted(plan)],
 "not_applicable": [
  {"property": "C18", "reason": "node capacities are compile-time constants of a template instantiation: no schedule, time, I/O, fault or history enters, so there is nothing to simulate"},
 ] + ([] if "C19" in plan else [{"property": "C19", "reason": "asymptotic running time is a performance property that simulated executions of bounded size do not decide"}]),
 "notes": "No hooks in /repo: the seams are the compiler's thread-sanitizer instrumentation calls (linked to the simulator instead of libtsan) and operator new/delete. known_findings.txt lists the repaired defects; replays go to replays/ (ignored by git); './check replay FILE' rebuilds and replays one.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
