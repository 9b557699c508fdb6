#!/bin/bash
# Builds the browser part (std for wasm32 from rust-src, then the guest module) and the driver.
set -eu
cd "$(dirname "$0")"
T=$CARGO_TARGET_DIR
A=${VERIF_ALL_FEATURES:+--features all}
mkdir -p "$T"
(
  set -eu
  SYS=$T/sysroot/lib/rustlib/wasm32-unknown-unknown/lib
  SR=$(rustc --print sysroot)
  STAMP="$(rustc -vV | sha256sum)"
  if [ ! -f "$T/std.stamp" ] || [ "$(cat "$T/std.stamp")" != "$STAMP" ]; then
    (cd "$SR/lib/rustlib/src/rust/library" &&
      RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$T/std \
      RUSTFLAGS="-Zforce-unstable-if-unmarked -Cembed-bitcode=no -Cdebuginfo=0 -Cpanic=abort" \
      cargo build --release -p sysroot --no-default-features --target wasm32-unknown-unknown --offline --locked)
    mkdir -p "$SYS"
    cp "$T"/std/wasm32-unknown-unknown/release/deps/*.rlib "$SYS/"
    echo "$STAMP" >"$T/std.stamp"
  fi
  cd guest
  CARGO_TARGET_DIR=$T/guest RUSTFLAGS="--sysroot $T/sysroot -Cpanic=abort -Clink-arg=--export-table" \
    cargo build --offline --locked --target wasm32-unknown-unknown $A
) &
W=$!
cargo build --offline --locked $A || { wait $W; exit 1; }
wait $W
