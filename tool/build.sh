#!/bin/bash
# Builds the exporter (once per content of fx.cpp).
set -e
cd "$(dirname "$0")"
exec 9>.lock; flock 9
h=$(sha256sum fx.cpp | cut -c1-16)
[ -x bin/fx-$h ] && exit 0
mkdir -p bin
clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-(I|D)') -w fx.cpp -o bin/fx-$h.tmp$$ -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv bin/fx-$h.tmp$$ bin/fx-$h
