#!/bin/bash
# sx.sh harness.cpp [clang flags] -- [engine opts]
cd "$(dirname "$0")/.."; . rt/flags.sh
R=${SX_REPO:-/repo}
h=$1; [ -f "$h" ] || h=harness/$h.cpp; shift; cf=(); while [ $# -gt 0 ] && [ "$1" != "--" ]; do cf+=("$1"); shift; done; shift
T=$(mktemp -d); clang++-18 $SX_CXXFLAGS -Irt -Iharness -I$R/include "${cf[@]}" -emit-llvm -c $h -o $T/a.bc && opt-18 -passes=sroa,simplifycfg $T/a.bc -o $T/b.bc && llvm-link-18 --only-needed $T/b.bc build/rt.bc -o $T/c.bc && build/symx $T/c.bc --out $T/o.json --verbose "$@" 
python3 - $T/o.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
if isinstance(d,dict): print(d); sys.exit()
for p in d[:1] if len(d)<2 else d:
    st=p['stats']; print(p['status'],p['why'],{k:st[k] for k in ('paths','infeasible_by_assumption','instructions','queries','solver_seconds','tiny','rewrites','rewrites_checked','cache_hits','forks','seconds') if k in st}, 'covers',p['covers'])
    for v in p['violations'][:3]: print('V',v['kind'],v['label'],v['detail'],v['where'][:300],v['model'],v['notes'][:10], v['sched'][:40])
P
rm -rf $T
