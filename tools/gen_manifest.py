#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "bounded symbolic execution of the compiled headers (LLVM IR) decided by the Z3 SMT solver",
                       "level": "model_checking",
                       "level_note": "Holds for: " + PROPS[i].note + ". Bounded: nothing is claimed outside these bounds. Trusts clang's lowering, "
                       "the executor and its libc/libstdc++ models, and Z3 (sample paths and every counterexample are replayed natively)."})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
