#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="${1:-$D/../build}"; mkdir -p "$O"
if [ -x "$O/bsx" ] && [ -z "$(find "$D" -newer "$O/bsx" -type f)" ]; then exit 0; fi
exec 9>"$O/.lock"; flock 9
if [ -x "$O/bsx" ] && [ -z "$(find "$D" -newer "$O/bsx" -type f)" ]; then exit 0; fi
g++ -std=c++17 -O2 -w -fno-strict-aliasing $(llvm-config-18 --cppflags) "$D/main.cpp" -o "$O/bsx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$O/bsx.tmp" "$O/bsx"
