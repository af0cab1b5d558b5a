#!/bin/bash
# Builds the symbolic executor (once) into $1 (default /verif/build/symx).
set -e
cd "$(dirname "$0")"
OUT=${1:-../build/symx}
mkdir -p "$(dirname "$OUT")"
LC=/usr/lib/llvm-18/bin/llvm-config
CXX="g++ -std=c++17 -O2 -w -I$($LC --includedir)"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for f in expr fp solver load exec; do $CXX -c $f.cpp -o $T/$f.o & done
for j in $(jobs -p); do wait $j; done
g++ $T/*.o -o "$T/symx" $($LC --ldflags) -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$T/symx" "$OUT"
