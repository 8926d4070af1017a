#!/bin/bash
# builds irx into $1 (a path); offline, LLVM 18 headers and libLLVM
set -e
here=$(cd "$(dirname "$0")" && pwd)
LC=/usr/lib/llvm-18/bin/llvm-config
exec clang++ -O1 -std=c++17 $($LC --cxxflags) -fexceptions -w "$here/irx.cpp" -o "$1" $($LC --ldflags) -lLLVM-18
