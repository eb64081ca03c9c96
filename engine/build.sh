#!/bin/bash
# builds the engine into $1 (default: ../build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
g++ -std=c++17 -O2 -g1 -w -fno-rtti -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS $(llvm-config-18 --cppflags) -fpermissive "$here/xsym.cpp" -o "$out/xsym.tmp" /usr/lib/libminisat.a -lz $(llvm-config-18 --ldflags) -lLLVM-18
mv "$out/xsym.tmp" "$out/xsym"
