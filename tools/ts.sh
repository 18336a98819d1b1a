#!/bin/bash
# like t.sh with the stream shim
h=$1; shift; exec $(dirname $0)/t.sh $h -I$(dirname $0)/../shim/stream "$@"
