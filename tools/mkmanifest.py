#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, vc/config.py and the texts below"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vc.config import FILES
import importlib.util
spec = importlib.util.spec_from_file_location("t", R + "/tools/claims.py")
t = importlib.util.module_from_spec(spec)
spec.loader.exec_module(t)
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
COMMON = ("Obligations are generated on every run from the bodies clang parses out of /repo/src and discharged by the verifier in vc/ "
          "(normaliser, induction, z3, cvc5). Assumes exact real arithmetic, no integer overflow, termination, the contracts of Eigen/libstdc++/Boost in vc/models.py. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in FILES:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t.TECH.get(i, "contract-based deductive verification: postconditions on the real C++ bodies, symbolic execution, loop invariants by induction, SMT"),
                       "level": "exploration" if i in t.BOUNDED else "proof", "level_note": (t.BOUNDED[i] if i in t.BOUNDED else COMMON) + t.NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": t.NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks: /repo is verified as it is."}, open(R + "/MANIFEST.json", "w"), indent=1)
