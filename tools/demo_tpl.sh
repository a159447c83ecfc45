#!/bin/bash
# builds demo.cpp against the library built in ./_build and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -f "$T/demo"; rmdir "$T"' EXIT
g++ -std=c++14 -O1 -I"$PWD/include" -I"$PWD/source" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" \
    _build/libHimalaya.a _build/libDSZ.a -lgfortran -lquadmath -lpthread || exit 2
timeout 250 "$T/demo"
