#!/bin/bash
# builds the symbolic execution engine: build.sh OUTDIR
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
L=/usr/lib/llvm-18
CXX=${CXX:-clang++-18}
F="-std=c++17 -O2 -w -fexceptions -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for s in expr solver exec icp; do
  ( $CXX $F -c "$D/$s.cc" -o "$O/$s.o.$$" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
$CXX "$O"/expr.o.$$ "$O"/solver.o.$$ "$O"/exec.o.$$ "$O"/icp.o.$$ -L$L/lib -lLLVM-18 -lz3 -lpthread -Wl,-rpath,$L/lib -o "$O/symx.$$"
mv "$O/symx.$$" "$O/symx"
rm -f "$O"/expr.o.$$ "$O"/solver.o.$$ "$O"/exec.o.$$ "$O"/icp.o.$$
