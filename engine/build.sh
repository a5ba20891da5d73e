#!/bin/bash
# builds the engine into /verif/build/wsym (only when sources changed)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="${1:-$D/../build}"; mkdir -p "$OUT"
H=$(cat "$D"/*.h "$D"/*.cpp | sha256sum | cut -c1-16)
[ -x "$OUT/wsym" ] && [ "$(cat "$OUT/wsym.hash" 2>/dev/null)" = "$H" ] && exit 0
CXXF="$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -std=c++20 -fexceptions -O2 -w"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
pids=()
for f in expr solver wsym; do g++ $CXXF -c "$D/$f.cpp" -o "$T/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ "$T"/*.o -o "$T/wsym" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$T/wsym" "$OUT/wsym"; echo "$H" > "$OUT/wsym.hash"
