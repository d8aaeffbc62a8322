#!/bin/bash
# builds the IR exporter from the committed source (offline)
set -eu
cd "$(dirname "$0")"
mkdir -p build
L=/usr/lib/llvm-18
g++ -O1 $($L/bin/llvm-config --cxxflags) -Wno-unused tool/irdump.cpp -o build/irdump.tmp $($L/bin/llvm-config --ldflags) -lLLVM-18
mv build/irdump.tmp build/irdump
g++ -O2 -shared -fPIC tool/fm.cpp -o build/libfm.tmp
mv build/libfm.tmp build/libfm.so
echo "setup ok"
