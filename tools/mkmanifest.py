#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from check.py's table and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
PURE = "pure function of its input: no thread, clock, I/O, randomness source or peer takes part, so no schedule or fault can change its outcome and deterministic simulation has nothing to decide; "
NA = {
 "C40": PURE + "serialization is exercised as part of the simulated transports and checkpoints (C17, C20, C26, C28)",
 "C41": PURE + "needs input generation or proof, another family of technique",
 "C42": PURE + "needs input generation or proof, another family of technique",
 "C43": PURE + "a distribution test of a seeded generator, another family of technique",
 "C44": PURE + "needs input generation, another family of technique",
 "C45": "no MPI implementation (headers or library) is installed and none can be fetched, so the MPI consumer and client cannot be compiled, let alone simulated",
}
NOTE = {}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection: seeded search over schedules and faults of the real code under an in-process simulator",
            level="exploration", level_note=NOTE.get(i, "seeded sampling of schedules, workloads and faults; sequentially consistent interleavings only; see DESIGN.md")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
  notes="Harnesses interpose libc/pthread symbols; /repo needs no hooks. replay: python3 check.py --replay FILE")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
