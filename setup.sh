#!/bin/bash
# Builds the symbolic executor and the runtime models (offline, a few tens of seconds).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
exec 9>build/.lock; flock 9
make -s -C engine
. rt/flags.sh
if [ ! -f build/rt.bc ] || [ rt/rt.cpp -nt build/rt.bc ] || [ rt/sx.h -nt build/rt.bc ] || [ rt/flags.sh -nt build/rt.bc ]; then
    clang++-18 $SX_CXXFLAGS -fno-builtin -emit-llvm -c -Irt rt/rt.cpp -o build/rt.0.bc
    opt-18 -passes='sroa,simplifycfg' build/rt.0.bc -o build/rt.bc.tmp
    mv build/rt.bc.tmp build/rt.bc
fi
if [ ! -f build/native_rt.o ] || [ rt/native_rt.cpp -nt build/native_rt.o ] || [ rt/sx.h -nt build/native_rt.o ]; then
    clang++-18 -std=c++20 -O1 -g -Irt -c rt/native_rt.cpp -o build/native_rt.o.tmp
    mv build/native_rt.o.tmp build/native_rt.o
fi
