#!/bin/bash
# Builds the AST dumper if it is missing or older than its source.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
out=../build/gdast
if [ ! -x $out ] || [ gdast.cpp -nt $out ]; then
  tmp=$(mktemp ../build/gdast.XXXXXX)
  clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
    -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS gdast.cpp -o $tmp \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.1
  chmod 755 $tmp; mv $tmp $out
fi
