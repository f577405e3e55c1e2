#!/bin/bash
# builds the extractor (a clang LibTooling program) into /verif/build
cd "$(dirname "$0")" || exit 1
mkdir -p build
exec 9>build/.lock; flock 9
if [ ! -x build/cxx2ir ] || [ tool/cxx2ir.cpp -nt build/cxx2ir ]; then
  clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') tool/cxx2ir.cpp -o build/cxx2ir.tmp \
    -L/usr/lib/x86_64-linux-gnu -l:libclang-cpp.so.18 -l:libLLVM-18.so || exit 1
  mv build/cxx2ir.tmp build/cxx2ir
fi
exit 0
