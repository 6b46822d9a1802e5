#!/bin/bash
# Builds the Clang-based fact extractor into /verif/tool/extract.
set -e
cd "$(dirname "$0")"
LLVM=/usr/lib/llvm-18
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -I$LLVM/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  extract.cpp -o extract.tmp.$$ $LLVM/lib/libclang-cpp.so.18.1 -L$LLVM/lib -lLLVM-18 -Wl,-rpath,$LLVM/lib
mv extract.tmp.$$ extract
