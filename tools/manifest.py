#!/usr/bin/env python3
"""Rewrites MANIFEST.json and properties.jsonl from checks.py and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from checks import CHECKS
import props
V = os.path.dirname(HERE)
TECH = "deterministic simulation with fault injection: seeded schedules and faults over the real code"
chk = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    chk.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough", technique=TECH + (" (" + c["tech"] + ")" if "tech" in c else ""), level="exploration",
        level_note=c.get("note", "Seeded sampling of executions, each exactly repeatable; a clean batch is evidence, not proof. Trusts the simulated primitives, the compiler's instrumentation and the oracle; executions are sequentially consistent interleavings with happens-before race detection.")))
na = [dict(property=k, reason=v) for k, v in props.NA.items()]
for p in props.P:
    if p["id"] not in CHECKS and p["id"] not in props.NA: na.append(dict(property=p["id"], reason="No check has been completed for this property yet."))
HOOKS = dict(guard="NATIVE_SIM", enable="tools/build.py compiles /repo/library with -DNATIVE_SIM", source_commits=["0c43dce"])
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", hooks=HOOKS, checks=chk, not_applicable=na, notes="The seams are at the level of the C and C++ runtime libraries (instrumented build in /verif/build); the only hook scales the initial size and lock count of the concurrent map."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P: f.write(json.dumps(p) + "\n")
