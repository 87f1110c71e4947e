#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$(pwd)"
g++-10 -w -std=c++14 -O1 -I"$R/src" "$D/@SRC@" "$R/_build/libcandylib.a" -lz -loscpack -lpthread -o "$T/demo" || { echo "cannot build demo"; exit 3; }
timeout 250 "$T/demo" "$T"
