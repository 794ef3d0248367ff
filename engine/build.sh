#!/bin/bash
# builds the symbolic executor (about 40 s); output $1 (default: build/vfsym)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build/vfsym}; mkdir -p "$(dirname "$OUT")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
g++ -O2 -g1 -std=c++17 -w -fexceptions -rdynamic $ZI -I$(llvm-config-18 --includedir) "$D/src/vfsym.cpp" -o "$OUT.tmp" -L$(llvm-config-18 --libdir) -lLLVM-18 $ZL -lgmpxx -lgmp -ldl
mv "$OUT.tmp" "$OUT"
