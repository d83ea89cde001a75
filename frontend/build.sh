#!/bin/bash
# builds the frontend into $1 (14 s); needs only the installed clang-18 libraries
set -e
here="$(cd "$(dirname "$0")" && pwd)"
clang++-18 -std=c++17 -O0 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/heuast.cpp" -o "$1" \
  -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
