#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from table import CHECKS
NOTAPP = {
    "C38": "no fsync/fdatasync or ordering of device writes exists anywhere in the code, so power-loss durability is not something the implementation attempts and there is no mechanism whose histories could be enumerated; process crash and write failure are decided under C18",
    "C39": "weak-memory reorderings of the plain and atomic accesses would need a memory-model level exploration of the compiled code (all accesses are seq_cst atomics or mutex protected and the build targets x86-64 only); the checks explore sequentially consistent interleavings and report data races by happens-before instead",
}
SEQ = "exhaustive enumeration of the bounded input and operation-sequence space on the real code, each execution compared with an independent reference"
SCHED = "stateless model checking of the real server over simulated sockets and virtual time: every history of the bounded alphabet, with every segmentation, timing or scheduling alternative up to a deviation bound, each execution compared with an independent reference"
FAULT = "stateless exploration of the real server over simulated sockets: every segmentation, fault and schedule alternative up to a deviation bound"
RACE = "stateless model checking of the real multi-threaded code: every schedule up to a preemption bound, with a switch point before every atomic, lock, system call and racing access; each schedule checked by a happens-before data-race and lifetime monitor"
CRASH = "exhaustive enumeration of every crash point, torn write and injected write failure of real operation histories"
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in CHECKS:
            na.append(dict(property=i, reason=NOTAPP.get(i, "no check built yet")))
            continue
        c = CHECKS[i]
        tech = {"seq": SEQ, "sched": SCHED, "fault": FAULT, "crash": CRASH, "race": RACE}[c.get("kind", "seq")]
        level = c.get("level", "model_checking")
        note = c.get("note", "Every case inside the stated bounds is executed on the real code compiled from /repo with address and undefined-behaviour sanitizers; nothing is sampled. Trusts the compiler, the sanitizers and the reference implementation in the harness; says nothing beyond the bounds.")
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
