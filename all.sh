#!/bin/bash
# run every check; summary only
cd "$(dirname "$0")"
for p in $(python3 -c "import props;print(' '.join(p['id'] for p in props.PROPS))"); do
  s=$(date +%s); o=$(./check --property $p "$@" 2>&1); rc=$?; e=$(date +%s)
  echo "$p rc=$rc $((e-s))s $(echo "$o" | grep '^discharged')"
  if [ $rc -ne 0 ]; then echo "$o" | tail -8; fi
  echo "$o" | grep "^UNDECIDED\|^KNOWN"
done
