#!/bin/bash
# Builds the extractor into the directory given as $1.
set -e
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"
g++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w "$D/irx.cpp" -o "$1/irx.tmp.$$" \
  $(llvm-config-18 --cxxflags) -fno-exceptions -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$1/irx.tmp.$$" "$1/irx"
