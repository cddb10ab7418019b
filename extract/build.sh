#!/bin/bash
# Builds the clang-AST extractor into $1 (default /verif/build).
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="${1:-$here/../build}"
mkdir -p "$out"
if [ "$out/extract" -nt "$here/extract.cc" ]; then exit 0; fi
clang++-18 -std=c++17 -O1 -fno-rtti -w "$here/extract.cc" -o "$out/extract.tmp$$" \
  $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 \
  -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/extract.tmp$$" "$out/extract"
