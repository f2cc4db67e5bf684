#!/bin/bash
# Builds the wfdump tool (offline, about 25 s) into $1 (default /verif/engine/bin/wfdump).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/bin/wfdump}"
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18
lib=$(ls $L/lib/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
llvm=$(ls $L/lib/libLLVM-18.so $L/lib/libLLVM.so 2>/dev/null | head -1)
clang++ -std=c++17 -O1 -fno-rtti -w "$here/wfdump.cc" -o "$out.tmp.$$" -I$L/include "$lib" "$llvm" -Wl,-rpath,$L/lib
mv -f "$out.tmp.$$" "$out"
