#!/bin/bash
# builds the symbolic executor
set -e; cd "$(dirname "$0")"; mkdir -p build
clang++ -O2 -g -std=c++17 -fno-rtti -fexceptions -Wno-null-dereference -Wno-undefined-bool-conversion -Wno-tautological-undefined-compare -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS symx.cpp expr.cpp -o build/symx.new /usr/lib/llvm-18/lib/libLLVM-18.so -lz3
mv build/symx.new build/symx
