#!/bin/bash
# Stages /repo's sources and builds the named harnesses (all, when none is named).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export RUSTUP_TOOLCHAIN=1.82 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 HOME=${HOME:-/root}
export CARGO_TARGET_DIR=$PWD/.target
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
python3 stage.py || exit 2
# Each harness is built by itself: together they would share features, and be built again for a check.
if [ $# = 0 ]; then
  for h in harness/*/; do "$PWD/build.sh" "$(basename "$h")" || exit 1; done
  exit 0
fi
args=()
for p in "$@"; do args+=(-p "$p"); done
exec cargo build --offline --manifest-path .ws/Cargo.toml "${args[@]}" 2>&1
