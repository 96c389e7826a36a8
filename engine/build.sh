#!/bin/bash
# Build the symbolic executor (idempotent). Output: $1 (default /verif/.build/qse)
set -e
D="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:-$D/../.build/qse}"
mkdir -p "$(dirname "$OUT")"
H=$(cat "$D"/*.cpp "$D"/*.hpp "$D"/*.inc | sha1sum | cut -c1-16)
if [ -x "$OUT" ] && [ "$(cat "$OUT.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
TMP="$OUT.tmp.$$"
clang++ -O2 -g1 -std=c++17 -fexceptions -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w \
  "$D/vm.cpp" -o "$TMP" -rdynamic -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lffi -ldl -lpthread
mv -f "$TMP" "$OUT"
echo "$H" > "$OUT.hash"
