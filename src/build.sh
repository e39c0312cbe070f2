#!/bin/bash
# builds /verif/build/lgsa from the committed sources (incremental)
set -e
cd "$(dirname "$0")"
B=../build/obj; mkdir -p $B
LC=/usr/lib/llvm-18/bin/llvm-config
CX=/usr/lib/llvm-18/bin/clang++
FL="$($LC --cxxflags) -O1 -w -std=c++17 -fno-exceptions -fno-rtti"
pids=()
for f in *.cpp; do
  o=$B/${f%.cpp}.o
  if [ ! -e $o ] || [ $f -nt $o ] || [ -n "$(find . -name "*.h" -newer $o)" ]; then
    X=; case $f in orders.cpp|serial.cpp|beval.cpp|release.cpp|bits.cpp|codec.cpp|instrs.cpp|layout.cpp) X=-fexceptions;; esac
    ( $CX $FL $X -c $f -o $o.tmp && mv $o.tmp $o ) & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
objs=(); for f in *.cpp; do objs+=($B/${f%.cpp}.o); done
$CX -o ../build/lgsa.tmp "${objs[@]}" -L$($LC --libdir) -lLLVM-18 -Wl,-rpath,$($LC --libdir)
mv ../build/lgsa.tmp ../build/lgsa
