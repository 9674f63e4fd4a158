#!/bin/bash
# Builds the libTooling extractor into /verif/build (git-ignored).
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
L=/usr/lib/llvm-18
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -Wno-everything -I$L/include \
  $($L/bin/llvm-config --cppflags) "$D/extractor/extract.cpp" -o "$D/build/extract.tmp.$$" \
  -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,$L/lib
mv "$D/build/extract.tmp.$$" "$D/build/extract"
