#!/bin/sh
# builds the engine into $1
set -e
d=$(dirname "$0"); out=${1:-$d/../build/symx}
mkdir -p "$(dirname "$out")"
g++ -O2 -std=c++17 -fno-rtti -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS \
  "$d/symx.cpp" "$d/expr.cpp" -o "$out.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -w
mv "$out.tmp$$" "$out"
