#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the explorer against /repo's working tree and runs one property.
# Exit 0: holds on everything explored; 1: VIOLATION; anything else: the check gave no answer.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=${1:?property}; tier=${2:-quick}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/mc/target"
export RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET RUSTC_WRAPPER
case $prop in
  P*) bin=parse;;
  E*) bin=ent;;
  F*|T*) bin=xform;;
  D*) bin=de;;
  R*) bin=raw;;
  *) echo "unknown property $prop" >&2; exit 2;;
esac
log=$(mktemp)
if ! (cd "$here/mc" && cargo build --offline --release --quiet --bin "$bin") >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "CHECK-ERROR: build failed" >&2
  exit 2
fi
rm -f "$log"
ulimit -c 0
ulimit -v 12000000
export VERIF_TIER=$tier
exec "$here/mc/target/release/$bin" "$prop" --tier "$tier" --root "$here"
