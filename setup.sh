#!/bin/bash
# Builds the symbolic executor and the runtime models from the committed files.
set -e
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/build" "$V/evidence"
bash "$V/engine/build.sh" "$V/build"
CL=/usr/bin/clang++-18; [ -x $CL ] || CL=/usr/bin/clang++
$CL -std=c++20 -O1 -fno-pic -fno-pie -gline-tables-only -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-access-control -Wno-everything -I"$V/models" -emit-llvm -c "$V/models/rt.cpp" -o "$V/build/rt0.bc"
$CL -std=c++20 -O1 -fno-pic -fno-pie -gline-tables-only -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-access-control -Wno-everything -I"$V/models" -emit-llvm -c "$V/models/rt_io.cpp" -o "$V/build/rt_io.bc"
llvm-link-18 "$V/build/rt0.bc" "$V/build/rt_io.bc" -o "$V/build/rt.bc"
