#!/bin/bash
# determinism.sh [RUNS]: every simulated run once alone in sequence, once among four parallel
# processes, once in the workers of a check; everything observable about the executions must be equal
cd "$(dirname "${BASH_SOURCE[0]}")/.." && . ./env.sh
bash build.sh sim || exit 2
n=${1:-240}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C11 C12 C13 C14 C15; do
  target/sim/release/vsim trace --property $p --from 0 --to $n > $T/a &
  for w in 0 1 2 3; do target/sim/release/vsim trace --property $p --from $w --to $n --stride 4 > $T/b.$w & done; wait
  cat $T/b.* | sort -n > $T/b
  mkdir $T/s; target/sim/release/vsim check --property $p --runs $n --workers 7 --evidence $T/e --replays $T --scratch $T/s --dump 1 > /dev/null
  cat $T/s/all* | sort -n > $T/c; rm -r "${T:?}/s"; awk '{print $1,$2}' $T/a | cmp - $T/c || { echo "$p: DIFFERENT in the check"; rc=1; }
  if cmp -s $T/a $T/b; then echo "$p: $(wc -l < $T/a) runs identical"; else echo "$p: DIFFERENT"; diff $T/a $T/b | head -4; rc=1; fi
done
exit $rc
