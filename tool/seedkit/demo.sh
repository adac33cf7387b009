#!/bin/bash
# Exit 0 when the property holds on this input, non-zero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -type f -delete; rmdir "$T"' EXIT
INC=$(pwd)/include
g++ -std=c++20 -O1 -w -I "$D" -I "$INC" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" || exit 2
timeout 120 "$T/demo"
