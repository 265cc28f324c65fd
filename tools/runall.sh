#!/bin/bash
# every check (or those named), one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(ls contracts | sed -n 's/^c\([0-9][0-9]\)\.py$/C\1/p')}; do
  t0=$SECONDS; out=$(./check.sh $p 2>&1); rc=$?
  echo "$p rc=$rc $((SECONDS-t0))s $(echo "$out" | tail -1)"
  [ $rc = 0 ] || echo "$out" | tail -5
done
