#!/bin/bash
# pack.sh: (re)make lib.tgz, what a demonstration needs besides its demo.rs, in every folder of seeded. The first line of
# demo.rs names its kind after "//! kind ": lib (the library; also when none is named), api (the client), bin (the `ec`
# tool), gen (the generator)
set -eu
cd "$(dirname "$0")"
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
for k in lib api bin gen; do
  mkdir -p $w/$k/demo/src
  cp $k/Cargo.toml $k/Cargo.lock $w/$k/demo/
  [ $k = gen ] || cp -r ../../shims ../../ec-lib $w/$k/
  [ $k = api ] && cp -r ../../bac-lib $w/$k/
  [ $k = lib ] && cp ../../ec/src/electra.rs $w/$k/demo/src/
  find $w/$k -name target -prune -exec rm -rf {} +
  find $w/$k -path '*ec-lib/Cargo.lock' -delete
  (cd $w/$k; tar czf $w/$k.tgz --sort=name --mtime=2026-01-01 --owner=0 --group=0 *)
done
for d in ../../seeded/*/; do
  [ -f $d/demo.rs ] || continue
  k=$(sed -n '1s,^//! kind \([a-z]*\).*,\1,p' $d/demo.rs)
  if [ -n "${FORCE:-}" ] || [ ! -f $d/lib.tgz ]; then cp $w/${k:-lib}.tgz $d/lib.tgz; fi
  [ -f $d/demo.sh ] || cp demo.sh $d
done
