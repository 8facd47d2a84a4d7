#!/bin/bash
# builds the symbolic executor into /verif/build/vsym
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}
mkdir -p "$OUT"
g++ -O2 -std=c++17 -w -I/usr/lib/llvm-18/include expr.cpp engine.cpp -o "$OUT/vsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$OUT/vsym.tmp" "$OUT/vsym"
