#!/bin/bash
# builds the AST exporter against the installed clang-18 libraries: build.sh OUT
set -eu
here=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18
g++ -std=c++17 -O1 -fno-rtti -w "$here/cxport.cpp" -o "$1" -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $(ls $L/lib/libclang-cpp.so* | head -1) $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
