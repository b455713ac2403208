#!/bin/bash
# Builds the AST exporter into /verif/build (ignored by git).
set -eu
cd "$(dirname "$0")"
mkdir -p ../build
OUT=../build/export
if [ -x $OUT ] && [ $OUT -nt export.cpp ]; then exit 0; fi
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include export.cpp \
    -o $OUT.tmp.$$ /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1
mv $OUT.tmp.$$ $OUT
