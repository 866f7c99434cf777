#!/bin/bash
# development helper: run checks and summarise the distinct violation keys
cd /verif
for p in "$@"; do
  python3 checks/run.py $p > /tmp/t.$p.log 2>&1; rc=$?
  echo "== $p rc=$rc: $(grep -E '^(OK|INCONCL|KNOWN)' /tmp/t.$p.log | cut -c1-600)"
  [ $rc = 2 ] && grep -v "^INCONC" /tmp/t.$p.log | grep -E "error|undefined|Error" | head -12 | cut -c1-300
  grep -E '^  key=' /tmp/t.$p.log | cut -c1-330
done
