#!/bin/bash
# builds the extractor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18
exec clang++-18 -O0 -fno-rtti -std=c++17 -w -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS \
  "$D/dump.cpp" -o "$1" $L/lib/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
