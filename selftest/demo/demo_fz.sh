#!/bin/bash
# incremental use of the library against exhaustive enumeration
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$(pwd)"
g++-10 -w -std=c++14 -O1 -I"$R/src" "$D/fz.cc" "$R/_build/libcandylib.a" -lz -loscpack -lpthread -o "$T/fz" || { echo "cannot build demo"; exit 3; }
timeout 250 "$T/fz" @ARGS@
