#!/bin/bash
# Compiles the program beside this script against the sources in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++1y -w -g -fsanitize=address -I. "$d/demo.cc" -o "$t/demo" || exit 3
cd "$t" && ulimit -c 0 && timeout 120 ./demo
