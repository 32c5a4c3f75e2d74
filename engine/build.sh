#!/bin/bash
# Builds the engine into $1 (a directory).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
Z3I=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/include
LF="$(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-fno-exceptions//;s/-std=c++17//;s/-fno-rtti//')"
for f in term solver engine interp; do
  g++ -std=c++17 -O2 -g1 -Wall -Wno-unused-function -I$Z3I $LF -c $here/$f.cpp -o $out/$f.o &
  pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ $out/term.o $out/solver.o $out/engine.o $out/interp.o -rdynamic -o $out/sxe.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lffi -lgmpxx -lgmp -ldl -lpthread
mv $out/sxe.tmp $out/sxe
