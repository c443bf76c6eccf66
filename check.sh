#!/bin/bash
# check.sh <property> [quick|thorough] [--only case]
# Builds the checker against /repo's current tree and runs one property.
cd "$(dirname "$0")" || exit 2
export VZ_VERIF="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
# modelstd implements Arc with std's own unstable attributes (dropck, unsizing).
export RUSTC_BOOTSTRAP=modelstd
export RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
case "$ID" in
  C09|C11|C12) PKG=mc; BIN=vzmc;;
  C28) PKG=tls; BIN=vztls;;
  *) PKG=harness; BIN=vzcheck;;
esac
LOG=$(mktemp)
if ! cargo build --offline --manifest-path "$PKG/Cargo.toml" >"$LOG" 2>&1; then
  tail -60 "$LOG"; rm -f "$LOG"
  echo "BUILD-ERROR: the checker does not build against /repo"; exit 2
fi
rm -f "$LOG"
exec "$PWD/target/debug/$BIN" "$ID" "$TIER" "$@"
