#!/bin/bash
# build a harness crate ("harness" or "harness-utils") against /repo's working tree into /verif/.build
set -e
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
source /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p "$V/.build"
for p in "$@"; do
  if [ "$p" = cli ]; then
    cd /repo
    CARGO_TARGET_DIR="$V/.build" flock "$V/.build/lock" cargo build --offline --locked -p banyan-utils --bin banyan-cli 2>&1
    continue
  fi
  cd "$V/$p"
  CARGO_TARGET_DIR="$V/.build" flock "$V/.build/lock" cargo build --offline --locked 2>&1
done
