#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checklib
from props import PROPS

tier = os.environ.get("VERIF_TIER", "quick")
a = sys.argv[1:]
if "--tier" in a:
    i = a.index("--tier")
    tier = a[i + 1]
    del a[i:i + 2]
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
rc = 0
for pid in (a if a != ["all"] else list(PROPS)):
    try:
        r = checklib.check(PROPS[pid], tier, seed)
    except checklib.Inconclusive as e:
        print("INCONCLUSIVE:", e)
        r = 2
    rc = max(rc, r) if r != 1 else 1 if rc != 2 else rc
sys.exit(rc)
