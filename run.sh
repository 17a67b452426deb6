#!/bin/bash
# run.sh C07 [args…]: build what the check of one property needs from /repo's working tree and run it
set -u
cd "$(dirname "$0")"
export VERIF_DIR=$PWD
. ./env.sh
id=$1; shift
b=$(echo "$id" | tr A-Z a-z)
dir=ec
[ -f bins.txt ] && d=$(awk -v b="$b" '$1==b{print $2}' bins.txt) && [ -n "$d" ] && dir=$d
log=$(mktemp)
bins="--bin $b"
# the check of the generator runs the generator
[ $dir = specgen ] && bins="$bins --bin spec-gen"
build() { (cd $dir && cargo build --locked $bins) >"$log" 2>&1; }
# without the probe of a private function, in case it is no longer there
again() { [ $dir = ecbin ] && export ECBIN_NOPROBE=1 && build; }
if ! build && ! again; then
  cat "$log" >&2
  echo "run.sh: build of $b failed" >&2
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$b" "$@"
