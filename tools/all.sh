#!/bin/sh
# every check on the current tree, one line each
cd "$(dirname "$0")/.."
for f in specs/c[0-9][0-9].py; do
  id=$(basename $f .py | tr c C)
  python3 check.py $id > /tmp/all.$id 2>&1; rc=$?
  echo "$rc $(grep "^$id:" /tmp/all.$id)"
done
