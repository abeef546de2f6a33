#!/bin/bash
# builds the exporter from the committed sources
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include fe/export.cpp -o build/export.tmp /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv build/export.tmp build/export
