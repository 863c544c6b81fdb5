#!/bin/bash
# runs every check on /repo: runall.sh [ID...]
cd "$(dirname "$0")/.."
ids="$*"; [ -n "$ids" ] || ids=$(ls checks/c*.py | sed 's/.*c\([0-9]*\).py/C\1/')
for p in $ids; do
  s=$(date +%s); o=$(python3 check.py $p 2>&1); r=$?
  echo "$p exit=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -v 'undecided ' | tail -1 | cut -c1-160) $(echo "$o" | grep -c INTERNAL) internal"
done
