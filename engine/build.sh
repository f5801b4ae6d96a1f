#!/bin/bash
# Builds the engine into $1 (default /verif/build).  Re-done when a source changes.
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT"
KEY=$(cat $D/*.h $D/*.cc $D/build.sh | sha256sum | cut -c1-16)
[ -x "$OUT/ssx" ] && [ "$(cat $OUT/ssx.key 2>/dev/null)" = "$KEY" ] && exit 0
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
T=$(mktemp -d); trap 'rm -r -f "$T"' EXIT
for f in expr poly mem solver decode exec; do
  g++ -std=c++17 -O2 -w -I$Z/include -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c $D/$f.cc -o $T/$f.o &
done
for j in $(jobs -p); do wait $j; done
g++ $T/*.o -o $T/ssx -L$Z/lib -l:libz3.so -Wl,-rpath,$Z/lib -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp -lpthread
mv $T/ssx "$OUT/ssx"; echo $KEY > "$OUT/ssx.key"
