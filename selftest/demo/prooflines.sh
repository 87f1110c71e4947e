#!/bin/bash
# prooflines: small formulas whose proof must contain particular lines
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
C="$(pwd)/_build/candy"; bad=0
run() { printf "$1" > "$T/f.cnf"; rm -f "$T/p"; shift; timeout 60 "$C" "$T/f.cnf" -certified-output="$T/p" "$@" > "$T/o" 2>&1; rc=$?; }
need() { grep -qxE -- "$1" "$T/p" || { echo "missing proof line: $1 in"; cat "$T/p"; bad=1; }; }
run 'p cnf 0 1\n0\n'; [ $rc = 20 ] || bad=1; need '0 *'
run 'p cnf 5 6\n1 0\n-1 2 0\n3 4 5 0\n3 4 -5 0\n3 -4 0\n-3 4 0\n' -no-pre; need '2 0'
# a subsumed binary clause is deleted
run 'p cnf 6 7\n1 2 0\n1 2 0\n-1 -2 0\n3 4 5 0\n-3 -4 6 0\n3 -4 -5 0\n-3 -5 -6 0\n'; need 'd (1 2|2 1) 0'
# big variable numbers
run 'p cnf 70000 2\n69999 70000 0\n69999 70000 68888 0\n'; need 'd .*69999.* 0'
run 'p cnf 70000 2\n-69999 -70000 0\n-69999 -70000 -68888 0\n'; need 'd .*-69999.* 0'
exit $bad
