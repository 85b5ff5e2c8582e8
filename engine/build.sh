#!/bin/bash
# builds the engine into $1 (a directory)
set -e
cd "$(dirname "$0")"
mkdir -p "$1"
F="-std=c++17 -O2 -g0 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w -fexceptions"
/usr/bin/g++ $F -c solver.cpp -o "$1/solver.o" &
/usr/bin/g++ $F -c symex.cpp -o "$1/symex.o" &
/usr/bin/g++ $F -c cvc.cpp -o "$1/cvc.o" &
wait %1; wait %2; wait %3
/usr/bin/g++ "$1/symex.o" "$1/solver.o" "$1/cvc.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lcvc5 -o "$1/symex"
