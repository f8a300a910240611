#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]  |  check.sh replay FILE  |  check.sh build
# Builds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")/mc" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/mc/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
WRUSTER_SRC_HASH=$(cd /repo && find wruster wruster_handlers wrusdummy wrustatic -path '*/target' -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
export WRUSTER_SRC_HASH
log="$VERIF_DIR/mc/target/build.log"
mkdir -p "$VERIF_DIR/mc/target"
if ! cargo build --offline -q --features hooks -p harness >"$log" 2>&1; then
  # the hooks of /repo do not compile: check what the public interface shows
  if ! cargo build --offline -q -p harness >>"$log" 2>&1; then
    tail -60 "$log"
    echo "ERROR: the harness does not build against /repo"
    exit 2
  fi
  echo "NOTE: built without the hooks of /repo"
fi
[ "$1" = build ] && exit 0
bin="$VERIF_DIR/mc/target/debug/mc"
if [ "$1" = replay ]; then exec "$bin" replay "$2"; fi
exec "$bin" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
