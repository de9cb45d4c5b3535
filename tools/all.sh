#!/bin/bash
# all.sh [tier] [seed]: run every check, print the failing ones
cd "$(dirname "$0")/.."
T=${1:-quick}; S=${2:-1}
for p in vp/props/c[0-9][0-9].py; do
  id=$(basename $p .py | tr a-z A-Z)
  out=$(bash check.sh $id $T --seed $S 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "$id rc=$rc: $(echo "$out" | tail -3 | head -2 | tr '\n' ' ' | cut -c1-260)"; fi
done
