#!/bin/sh
# Builds the IR dumper used by every check (offline, from committed sources).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/irdump ] || [ tool/irdump.cpp -nt build/irdump ]; then
  clang++ -std=c++17 -O1 -w -fno-exceptions -fno-rtti -I/usr/lib/llvm-18/include tool/irdump.cpp -o build/irdump.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
  mv build/irdump.tmp build/irdump
fi
