#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
import plans
T = {
    "C01": "lockstep ownership-model monitor over random programs, ASan/UBSan",
    "C02": "lockstep ownership-model monitor over random programs, ASan/UBSan",
    "C03": "lockstep ownership-model monitor with allocation monitor, ASan/UBSan",
    "C04": "conservation and lock-result monitors over sampled schedules (access-level scheduler) and real threads under TSan/ASan",
    "C05": "vector-clock race detector over sampled schedules, TSan (clang, gcc) on real threads",
    "C06": "offline linearizability checking of recorded histories over sampled schedules and real threads",
    "C07": "conservation, progress and lock-held monitors over sampled schedules with slot-using destructors",
    "C08": "lockstep ownership-model monitor over random unique_ptr programs, ASan/UBSan",
    "C09": "lockstep ownership-model monitor with re-entrant destructors, ASan/UBSan",
    "C10": "enumerated fault injection with state, conservation and heap monitors",
    "C11": "recording control block compared with live pointers after every operation",
    "C12": "heap and arena monitors over random allocation histories, ASan/UBSan",
    "C13": "state monitors over object histories, sampled schedules, TSan/ASan",
    "C14": "differential monitoring against the standard pointers",
    "C15": "monitors of the helpers over standard pointers: lockstep model, linearizability, race detection",
    "C16": "construction-event monitor with dirty-memory byte checks",
    "C17": "conversion monitor against raw-pointer conversions over random walks, ASan/UBSan",
    "C18": "counter model monitor, range sweeps, linearizability over sampled schedules, TSan",
    "C19": "comparison monitor: all pairs and triples of random pools against addresses and ownership",
    "C20": "ASan, UBSan, MSan, valgrind and heap monitor across compilers, modes and levels",
}
NOTE = {
    "C10": "Every fault point of every listed creating operation is injected (complete list of 1632), plus random programs; the list itself is finite and hand-written.",
    "C18": "Quick sweeps neighbourhoods of the 32-bit range; thorough steps through all 2^32 values; concurrency is sampled.",
}
for c in ("C04", "C05", "C06", "C07", "C15"):
    NOTE[c] = "Interleavings are sampled at the granularity of every instrumented access; weak memory is approximated by vector clocks and injected stale reads."
checks = []
for pid in sorted(plans.PLANS):
    checks.append({"property": pid, "quick_cmd": "python3 bin/check.py " + pid, "thorough_cmd": "python3 bin/check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": T[pid], "level": plans.PLANS[pid]["level"],
                   "level_note": NOTE.get(pid, "Random programs judged after every operation by an independent model; nothing is said about programs which were not run.")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
