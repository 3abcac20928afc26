#!/usr/bin/env bash
# Entry point of every check: builds the simulator against the current /repo
# tree, then runs it.
#   run.sh setup | check ARGS.. | replay FILE [--trace] | run ARGS.. | determinism ARGS..
set -u
here="$(cd "$(dirname "$0")" && pwd)"
if [ "${1:-}" = replay ] && [ -n "${2:-}" ]; then
  set -- "$1" "$(realpath -m "$2")" "${@:3}"
fi
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${RKSIM_TARGET:-$here/sim/target}"
export RKSIM_DIR="$here" RUSTFLAGS="--cfg rksim"
log="$CARGO_TARGET_DIR/build.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline --release >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "rksim: build failed" >&2
  exit 2
fi
[ "${1:-}" = setup ] && exit 0
exec "$CARGO_TARGET_DIR/release/rksim" "$@"
