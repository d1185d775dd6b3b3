#!/bin/bash
# runs every check on the tree and on its examples
cd "$(dirname "$0")/.."
for c in sa/checks/c*.py; do
  id=$(basename $c .py | tr c C)
  python3 check.py $id quick | grep -v "^  rule" || true
  python3 -m sa.selftest $id | grep -v "^ok"
done
