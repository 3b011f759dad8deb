#!/usr/bin/env python3
"""Write MANIFEST.json (run from /verif)."""
import json
T = {
 'hist': "stateless model checking of the real code: all operation histories to a depth, each step compared with a reference model",
 'enum': "bounded exhaustive exploration of the real code: every input, storage form and memory layout of a finite space, against a reference model",
}
tech = {}
for i in range(1, 33):
    tech['C%02d' % i] = T['enum']
for p in 'C20 C21 C22 C23 C24 C25 C26 C29'.split():
    tech[p] = T['hist']
tech['C05'] = "explicit-state reachability fixpoint over the real feature vectors, plus all histories to a depth, against plain arrays"
tech['C08'] = "exhaustive fault enumeration on the real code: every call of the user function as panic point, in every operation and storage form"
tech['C09'] = "stateless model checking of the real code: all call histories to a depth over every basis, against fresh bases and the advertised size"
tech['C27'] = "exhaustive fault enumeration on the real code: every placement of failing projections and optimiser steps in every operation history to a depth"
tech['C28'] = "stateless model checking of the real code: every save point of every operation history to a depth, the restored object run in lockstep with the original"
tech['C31'] = "exhaustive fault enumeration on the real code: every callback of every approximator operation as panic point"
tech['C30'] = "stateless model checking of the real code: all interleavings of threads up to a preemption bound under a controlled scheduler that is called at every atomic operation and static-data access of the instrumented library; compile-time Send/Sync facts"
note = ("Every execution of the bounded space (evidence: states, transitions, traces) is run on the real library and compared with an independent "
        "reference model. Assumes the reference model states the property correctly, and that sizes, values and depths beyond the bounds behave "
        "like those inside; floating-point results are compared within a relative tolerance.")
extra = {
 'C26': " Known finding: stateful optimisers are shared between outputs; deviations are accepted only if they equal, to rounding, what sharing the state produces.",
 'C28': " Known finding: Chebyshev::with_zeroth is not part of the serialised form; only its exact loss is accepted.",
 'C30': " Sequentially consistent executions only; scheduling points are the instrumented atomics, static-data accesses and lock operations inside the library, and the calls themselves.",
 'C21': " For Adam and AdaMax sparse steps are compared with dense ones only when every coordinate is listed (their sparse update is lazy by design).",
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is checked through the public API. bash replay.sh <replay file> re-executes one recorded execution."}
for l in open('properties.jsonl'):
    i = json.loads(l)['id']
    m['checks'].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": tech[i], "level": "model_checking", "level_note": note + extra.get(i, "")})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
