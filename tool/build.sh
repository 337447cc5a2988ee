#!/bin/sh
# Builds the fact extractor.  usage: build.sh OUTPUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18/lib
clang++-18 -O1 -fno-rtti -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$1" "$L/libclang-cpp.so.18.1" "$L/libLLVM-18.so" -Wl,-rpath,"$L" -s
