#!/bin/bash
# Builds the fact extractor into $1 (offline, clang 18 libraries only).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/bin/cxxfacts}
mkdir -p "$(dirname "$out")"
tmp="$out.$$"
clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -w \
  "$here/cxxfacts.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18
mv "$tmp" "$out"
