#!/bin/bash
# Builds the IR dumper (the only compiled part of the framework) into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p build
CFG=llvm-config-18; command -v $CFG >/dev/null || CFG=/usr/lib/llvm-18/bin/llvm-config
out=build/irdump
if [ ! -x $out ] || [ engine/irdump/irdump.cpp -nt $out ]; then
    clang++-18 -O1 $($CFG --cxxflags | sed 's/-fno-exceptions//') -std=c++17 engine/irdump/irdump.cpp -o $out.tmp \
        $($CFG --ldflags) -lLLVM-18 2>/dev/null \
    || clang++ -O1 -I/usr/lib/llvm-18/include -std=c++17 -fno-rtti engine/irdump/irdump.cpp -o $out.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
    mv $out.tmp $out
fi
echo "irdump ready"
