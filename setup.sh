#!/bin/bash
# builds the framework once; the checks build again what they need from /repo's current tree
set -u
cd "$(dirname "$0")"
. ./env.sh
for d in ec $( [ -f bins.txt ] && awk '{print $2}' bins.txt | sort -u ); do
  (cd $d && cargo build --locked) || exit 1
done
