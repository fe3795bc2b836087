#!/bin/bash
# Builds demo.cpp against the library built from /repo (cwd) and runs it in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
inst=$(pwd)/_build/inst
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -O1 -w -I"$here" -I"$inst/include/coin-or" "$here/demo.cpp" -L"$inst/lib" -lipopt -lpthread -Wl,-rpath,"$inst/lib" -o "$work/demo"
cd "$work"
timeout 250 ./demo
