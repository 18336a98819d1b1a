#!/bin/bash
# t.sh harness defs...
h=$1; shift
echo "$h $@"; $(dirname "$0")/sx.sh $h "$@" -- --max-time ${MT:-100} --jobs ${J:-8} --samples 0 $XO 2>/tmp/t.err | python3 -c "
import sys,re
ls=[];v=[]
for l in sys.stdin:
    if 'paths' in l: ls.append(l)
    elif l.startswith('V '): v.append(l)
    elif 'fork' not in l: print(l[:1500])
f=lambda k: [float(re.search(r\"'%s': ([\d.]+)\"%k,l).group(1)) for l in ls]
print(len(ls), 'paths',sum(f('paths')), 'sec',max(f('seconds')+[0]), 'solver',sum(f('solver_seconds')),'queries',sum(f('queries')),'incomplete', sum('incomplete' in l for l in ls), ls[0][:0])
co={}
for l in ls:
    for k,c in eval(l[l.index('covers')+6:].split('}')[0]+'}').items(): co[k]=co.get(k,0)+c
print('covers',co)
for x in v[:4]: print(x[:1200])
for l in ls:
    if 'incomplete' in l: print(l[:200]); break
"; grep -v VIOL /tmp/t.err | head -${EL:-0}
