#!/bin/bash
# Builds the engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd)
O=${1:-$D/../build}
mkdir -p "$O"
CXX="/usr/bin/g++ -std=c++17 -O2 -w $(llvm-config-18 --cppflags)"
for f in expr solver bitblast linear intsolve symex; do $CXX -fexceptions -c "$D/$f.cpp" -o "$O/$f.o" & done
wait
/usr/bin/g++ "$O/expr.o" "$O/solver.o" "$O/bitblast.o" "$O/linear.o" "$O/intsolve.o" "$O/symex.o" -o "$O/symex" $(llvm-config-18 --ldflags) -lLLVM-18 /usr/lib/libminisat.a -lz3 -lpthread
