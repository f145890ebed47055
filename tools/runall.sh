#!/bin/bash
# runall.sh REPO LOG [IDs..]: every check against the tree REPO, one line per check
R=$1; L=$2; shift 2
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls props | grep -o '^C[0-9][0-9]')
for p in "$@"; do
  s=$(date +%s)
  SYMX_REPO=$R SYMX_EVIDENCE=$L.ev timeout 900 /opt/venv/bin/python check.py $p > $L.out 2>&1
  rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $( [ $rc -ne 0 ] && cut -c1-300 $L.out | head -3 | tr '\n' '|')" >> $L
done
echo done >> $L
