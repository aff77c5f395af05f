#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in checks/ and the properties in tools/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
NA = {"C34": "The statement is about real-analysis accuracy of floating-point transforms; an explicit-state TLA+ specification has no useful state space for it and TLC no real arithmetic."}
DEFAULT_NA = "No check is registered yet for this property."
NOTE = ("Bounded exhaustive exploration of the TLA+ specification with TLC, and TLC as the oracle that every recorded trace of the real code "
        "(driven by TLC behaviours and by seeded random histories) is a behaviour of the specification. Trusts TLC, the drivers and, where the module needs "
        "libraries absent here (nda, h5, mpi, itertools), the stand-ins in shim/.")
checks, na = [], []
for p in sorted(props.P, key=lambda p: p["id"]):
    i = p["id"]
    if os.path.exists(f"{root}/checks/{i}.py"):
        checks.append(dict(property=i, quick_cmd=f"python3 tools/run.py {i} quick", thorough_cmd=f"python3 tools/run.py {i} thorough",
                           technique="TLA+ specification checked with TLC; trace conformance of the real code against it", level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, DEFAULT_NA)))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Specifications in spec/, drivers in drivers/ and checks/, stand-ins for absent libraries in shim/.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
