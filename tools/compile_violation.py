#!/usr/bin/env python3
"""Reports that generated bindings do not compile. Usage: compile_violation.py LOG"""
import json, os, sys
here = os.environ["VERIF_DIR"]
log = open(sys.argv[1], errors="replace").read()
i = max(log.find("\nerror"), 0)
path = f"{here}/replays/C12-compile.json"
json.dump({"property": "C12", "kind": "compile", "class": "compile", "detail": "the bindings generated for the committed ABIs do not compile", "log": log[i:i + 20000]}, open(path, "w"), indent=1)
json.dump({"property": "C12", "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compiling the bindings of the committed ABIs; no run was possible", "samples": [{"log": log[i:i + 1000]}], "replay": path},
           "wall_s": 0, "violations": 1}, open(f"{here}/evidence/C12.json", "w"), indent=1)
print(log[i:i + 1500])
print("compile: the bindings generated for the committed ABIs do not compile")
print(f"VIOLATION property=C12 replay={path}")
