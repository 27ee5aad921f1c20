#!/bin/bash
# runall.sh SEEDS... : every check, quick tier, for each seed; prints the failures
cd "$(dirname "$0")/.."
for s in "$@"; do for i in $(seq -w 1 28); do echo "C$i $s"; done; done | OMP_NUM_THREADS=1 xargs -P 6 -L1 bash -c 'o=$(timeout 600 ./check.py $0 --tier quick --seed $1 2>&1 </dev/null); r=$?; [ $r -ne 0 ] && { echo "== $0 seed $1 exit $r"; echo "$o" | tail -5; }; true'
