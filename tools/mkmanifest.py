#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and the property list (run with python3-vt)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from spec.registry import PROPS, NA
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        r = PROPS[i]
        note = ("Every listed function's contract (pre/postconditions, frame, loop invariants, bounds and call preconditions) is discharged by z3 from /repo's current source, for all inputs. " if r["level"] == "proof" else "") + r["note"]
        note += " Assumes: doubles read as reals, no upward integer overflow, no aliasing between distinct arguments; trusts the clang AST, the VC generator in /verif/kv, z3 and the std:: models."
        checks.append(dict(property=i, quick_cmd="python3-vt -m kv.run " + i, thorough_cmd="VERIF_TIER=thorough python3-vt -m kv.run " + i,
            technique="contract-based deductive verification (function contracts on the real C++ via clang AST, SMT-discharged)" + ("; bounded stand-in for: " + "; ".join(r["bounded"]) if r.get("bounded") else ""),
            level=r["level"], level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, "contracts for this property are not built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, jsonschema' && clang++ --version >/dev/null && mkdir -p evidence build/replay",
         checks=checks, not_applicable=na,
         notes="Verifier: /verif/kv; contracts: /verif/spec; native replay harnesses: /verif/native. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
