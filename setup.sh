#!/bin/sh
# builds the IR dumper; everything else is interpreted or rebuilt on every run
set -e
d=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$d/build" "$d/evidence"
cfg=/usr/lib/llvm-18/bin/llvm-config
clang++ -O1 $($cfg --cxxflags) -std=c++17 "$d/tools/irdump.cc" -o "$d/build/irdump.tmp" $($cfg --ldflags --libs)
mv "$d/build/irdump.tmp" "$d/build/irdump"
