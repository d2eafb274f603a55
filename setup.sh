#!/bin/sh
# builds everything the checks use from /repo's working tree
set -e
cd "$(dirname "$0")"
mkdir -p build work evidence
cmake -G Ninja -S . -B build -DREPO=/repo -DCMAKE_CXX_COMPILER=clang++ -DCMAKE_C_COMPILER=clang >/dev/null
ninja -C build -k 0
