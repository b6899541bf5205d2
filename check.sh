#!/bin/bash
# check.sh <ID>            explore one property at tier $VERIF_TIER (quick by default)
# check.sh --replay FILE   re-run the one case of a violation
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" CARGO_TERM_COLOR=never
log=$(mktemp)
if ! (cd mc && cargo build --release --offline --locked) >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "check.sh: the explorer does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
ulimit -v 24000000
ulimit -c 0
exec ./target/release/mc "$@"
