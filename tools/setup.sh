#!/bin/bash
# builds the IR dumper (LLVM module -> JSON)
set -e
cd "$(dirname "$0")"
mkdir -p bin
/usr/bin/clang++-18 $(/usr/bin/llvm-config-18 --cxxflags) -O1 -fno-rtti -w irdump.cpp -o bin/irdump.tmp $(/usr/bin/llvm-config-18 --ldflags --libs --system-libs)
mv bin/irdump.tmp bin/irdump
