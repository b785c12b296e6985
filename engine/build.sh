#!/bin/bash
# builds the engine and the library model into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
T=$(mktemp -d "$O/tmp.XXXX"); trap 'rm -rf "$T"' EXIT
CF="-std=c++17 -w -O2 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -ftrivial-auto-var-init=pattern -emit-llvm -c -I$D"
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -o "$T/sx" "$D/sx.cc" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 &
P=$!
for m in "$D"/model/*.cc; do clang++ $CF -fno-builtin "$m" -o "$T/$(basename "$m" .cc).bc"; done
/usr/lib/llvm-18/bin/llvm-link "$T"/*.bc -o "$T/all_model.bc"
wait $P
mv "$T/sx" "$O/sx"; mv "$T/all_model.bc" "$O/model.bc"
