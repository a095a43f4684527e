#!/bin/bash
# Builds the symbolic executor into $1 (a directory).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
F="-std=gnu++20 -O2 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-rtti -fexceptions"
pids=()
for f in expr solver interp main; do clang++-18 $F -c "$here/$f.cpp" -o "$out/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
clang++-18 "$out"/{expr,solver,interp,main}.o -o "$out/se.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$out/se.tmp" "$out/se"; rm -f "$out"/{expr,solver,interp,main}.o
