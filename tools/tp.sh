#!/bin/bash
# tp.sh harness A=1 B=2 P2|D1 : threaded run with preemption or delay bound
h=$1; shift; d=(); XO=; for x in $*; do case $x in P[0-9]) XO="--preempt ${x#P}";; D[0-9]) XO="--preempt ${x#D} --delay";; *) d+=(-D$x);; esac; done
XO="$XO" EL=0 $(dirname $0)/t.sh $h "${d[@]}"; echo "   [$XO]"
