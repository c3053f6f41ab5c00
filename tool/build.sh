#!/bin/bash
# builds the front end (clang 18 libTooling); idempotent
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../.cache/extract}"
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt "$here/extract.cpp" ]; then exit 0; fi
LIB=/usr/lib/llvm-18/lib
CPP=$(ls $LIB/libclang-cpp.so* | head -1)
clang++ -O1 -fno-rtti -w -std=c++17 -I/usr/lib/llvm-18/include "$here/extract.cpp" -o "$out.tmp.$$" "$CPP" -L$LIB -lLLVM-18
mv "$out.tmp.$$" "$out"
