#!/bin/bash
# builds the extractor (offline, against the installed clang 18 libraries)
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/htx ] || [ extractor/htx.cpp -nt build/htx ]; then
  clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include extractor/htx.cpp -o build/htx.tmp.$$ \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
  mv build/htx.tmp.$$ build/htx
fi
