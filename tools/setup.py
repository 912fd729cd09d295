#!/usr/bin/env python3
"""Checks that the simulator builds and is deterministic (every check builds for itself)."""
import os, sys, subprocess, json
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build as B
exe = B.build("T00", ["selftest"])
out = os.path.join(B.VERIF, "out", "setup"); os.makedirs(out, exist_ok=True)
a = [json.loads(subprocess.run([exe, "batch", "selftest", "1", "0", "1", "60", out, "200"], capture_output=True, text=True).stdout) for _ in range(2)]
assert a[0]["runs"] == a[1]["runs"] == 200 and a[0]["orders"].sort() == a[1]["orders"].sort() and not a[0]["nondet"] and a[0]["steps"] == a[1]["steps"], "not deterministic"
assert not a[0]["violations"], a[0]["violations"]
b = json.loads(subprocess.run([exe, "batch", "selfbug", "1", "0", "1", "60", out, "300"], capture_output=True, text=True).stdout)
assert any(v["class"] == "lost-update" for v in b["violations"]), "a planted lost update was not found"
print("simulator builds, repeats itself exactly and finds the self-test bug")
