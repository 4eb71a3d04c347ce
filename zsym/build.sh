#!/bin/bash
# builds zsym into $1 (output file)
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/include/z3.h ] && [ -f $Z/lib/libz3.so ]; then INC=-I$Z/include; LIB="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else INC=; LIB=-lz3; fi
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in expr ir solver main; do g++ -std=c++20 -O2 -w $INC -c $f.cpp -o $T/$f.o & done; wait
g++ -o "$1.tmp" $T/expr.o $T/ir.o $T/solver.o $T/main.o $LIB -lpthread && mv "$1.tmp" "$1"
