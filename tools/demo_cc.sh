#!/bin/bash
# Compiles the program beside this script against the library built in the
# current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++11 -O1 -g -w -DNDEBUG -I"$repo/include" $DEMO_FLAGS "$here/demo.cc" -o "$d/demo" "$repo/lib/libvirg-nexus.a" \
    -lpng -ljpeg -llapack -lblas -lcairo -lz -lm -lpthread || exit 9
cd "$d" && timeout 200 ./demo
