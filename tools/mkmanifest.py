#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta
m = {"version": 1, "setup_cmd": "./check.py --build",
     "checks": [], "not_applicable": []}
NOTE = ("Seeded search over schedules and fault sequences, deterministic and replayable from one seed; evidence, not proof. "
        "Trusts the simulation runtime (sim/rt.cpp), gcc's access instrumentation and the workload's oracle. ")
for p in sorted(meta.TITLES):
    if p in meta.PROPS:
        m["checks"].append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "./check.py " + p,
            "technique": "deterministic simulation: seeded scheduler at every memory access and lock operation, with fault injection" if not meta.PROPS[p].get("technique") else meta.PROPS[p]["technique"],
            "level": "exploration", "level_note": NOTE + meta.PROPS[p].get("note", "")})
    else:
        m["not_applicable"].append({"property": p, "reason": meta.NOT_APPLICABLE.get(p, "Not claimed yet: the check is not built.")})
m["notes"] = "No hooks in /repo: the seams are the compiler's access instrumentation, the linker's --wrap of the synchronisation and allocation functions, and stream buffers, types and functions supplied by the workloads."
json.dump(m, open(meta.HERE + "/MANIFEST.json", "w"), indent=1)
open(meta.HERE + "/MANIFEST.json", "a").write("\n")
