#!/bin/bash
# builds the analysis engine and the disassembler driver from /verif/engine (offline; about half a minute)
set -e
cd "$(dirname "$0")"
mkdir -p build
build(){ clang++-18 -O2 $(llvm-config-18 --cxxflags) -w engine/$1.cpp -o build/$2.tmp.$$ -L$(llvm-config-18 --libdir) -lLLVM-18; mv build/$2.tmp.$$ build/$2; }
build absint hlcsa & a=$!
build disasm hlcdis & b=$!
build irdump hlcir & c=$!
wait $a; wait $b; wait $c
echo "engine built"
