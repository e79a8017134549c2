#!/bin/bash
# usage: cwd is the repository; compiles the demonstration beside this file against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here"/*.cxx "$here"/*.hxx "$t"/ 2>/dev/null
cd "$t" || exit 1
g++ -std=c++20 -w -I"$repo/include" -I"$t" -I"$here" -idirafter "$repo" demo.cxx -o demo -llapack || exit 2
timeout 120 ./demo
