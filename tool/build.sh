#!/bin/bash
# builds the extractor into /verif/.cache/extract (offline, system LLVM 18)
set -e
cd "$(dirname "$0")"; OUT=${1:-../.cache/extract}; mkdir -p "$(dirname "$OUT")"
L=/usr/lib/llvm-18
$L/bin/clang++ -O1 -std=c++17 -fno-rtti -fno-exceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -I$L/include extract.cpp -o "$OUT.tmp.$$" -L$L/lib -Wl,-rpath,$L/lib $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM.so
mv "$OUT.tmp.$$" "$OUT"
