#!/bin/bash
# Usage: check.sh <property> [quick|thorough]   or   check.sh --replay <file>   or   check.sh --build
# Builds the harness against /repo's working tree, then runs one check.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
python3 bin/stage.py >&2 || { echo "ERROR: staging failed"; exit 2; }
log=$(mktemp)
if ! (cd harness && cargo build --release --offline -p checks) >"$log" 2>&1; then
  tail -60 "$log"
  rm -f "$log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
exec harness/target/release/checks "$@"
