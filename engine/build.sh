#!/bin/bash
# Builds the symbolic executor into /verif/build (not committed).
set -eu
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p $B
LC=/usr/lib/llvm-18/bin/llvm-config
if [ -x $B/symx ] && [ -z "$(find $D -newer $B/symx -name '*.[ch]pp')" ]; then exit 0; fi
g++ -O2 -g1 -std=c++17 -fno-rtti -w -I$($LC --includedir) $D/engine.cpp -o $B/symx.tmp.$$ -L$($LC --libdir) -lLLVM-18 -lz3
mv $B/symx.tmp.$$ $B/symx
