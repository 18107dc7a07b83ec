#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
HERE=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$HERE/../build/engine}; mkdir -p "$OUT"
H=$(cat "$HERE"/symex.cpp "$HERE"/expr.h "$HERE"/shim.c "$HERE"/build.sh | sha256sum | cut -c1-16)
if [ -x "$OUT/symex" ] && [ "$(cat "$OUT/stamp" 2>/dev/null)" = "$H" ]; then exit 0; fi
clang++-18 -O2 -std=c++17 -fexceptions -Wno-deprecated-declarations -I/usr/lib/llvm-18/include -o "$OUT/symex.tmp" "$HERE/symex.cpp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
gcc -O1 -c -o "$OUT/shim.o" "$HERE/shim.c"
mv "$OUT/symex.tmp" "$OUT/symex"; echo "$H" > "$OUT/stamp"
