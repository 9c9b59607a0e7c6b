#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
out=${1:-../build}; mkdir -p "$out"
sum=$(cat symx.cpp solver.h expr.h build.sh | sha256sum | cut -d' ' -f1)
if [ -x "$out/symx" ] && [ "$(cat "$out/symx.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
tmp=$out/symx.tmp.$$
g++ -O2 -g1 $(llvm-config-18 --cxxflags) -fexceptions -std=c++17 -Wno-unused -o "$tmp" symx.cpp $(llvm-config-18 --ldflags --libs core irreader support) -lz3 -lpthread
mv -f "$tmp" "$out/symx"; echo "$sum" > "$out/symx.sum"
