#!/bin/bash
# verify_seed.sh id...: applies each planted bug to /repo, runs the check of its property, undoes it (never while vcheck runs)
cd /verif
for b in "$@"; do p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$b/patch.diff || continue
timeout 880 python3 check.py $p > /tmp/vs.log 2>&1; echo "$b $p rc $? $(grep -c '^VIOLATION property='$p /tmp/vs.log)"
git -C /repo checkout -- .; done
