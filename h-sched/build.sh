#!/bin/bash
# Builds the harness; stylist and stylist-core are compiled against the stand-ins for std and
# once_cell (see ../sched), everything else against the real ones.
set -eu
here="$PWD"
export RUSTC_WRAPPER="$here/rustc-wrapper"
tgt="$CARGO_TARGET_DIR"
MC_STD= MC_ONCE= cargo build --offline --locked -p mcstd -p mconce
std=$(ls -t "$tgt"/debug/deps/libmcstd-*.rlib | head -1); once=$(ls -t "$tgt"/debug/deps/libmconce-*.rlib | head -1)
stamp="$tgt/shim.stamp"
if [ "$(cat "$stamp" 2>/dev/null)" != "$(cat "$std" "$once" | sha256sum)" ]; then
  cargo clean --offline -p stylist -p stylist-core 2>/dev/null || true
  cat "$std" "$once" | sha256sum >"$stamp"
fi
MC_STD="$std" MC_ONCE="$once" cargo build --offline --locked ${VERIF_ALL_FEATURES:+--features all} && exit 0
[ -n "${VERIF_ALL_FEATURES:-}" ] || exit 1
# The library uses something the stand-ins do not have: explore the orders of whole threads.
echo "without stand-ins" >"$stamp"
cargo clean --offline -p stylist -p stylist-core 2>/dev/null || true
MC_STD=none cargo build --offline --locked --features all
