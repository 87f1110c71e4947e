#!/bin/bash
# command line solver: verdict against exhaustive enumeration, proof against a forward DRAT checker
D="$(cd "$(dirname "$0")" && pwd)"
timeout 280 python3 "$D/pf.py" @ARGS@
