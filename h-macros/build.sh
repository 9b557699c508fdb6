#!/bin/bash
# Builds the harness and writes down which stylist library the generated programs link with.
set -eu
j="$CARGO_TARGET_DIR/artifacts.json"
mkdir -p "$CARGO_TARGET_DIR"
cargo build --offline --locked ${VERIF_ALL_FEATURES:+--features all} --message-format=json-render-diagnostics >"$j"
python3 - "$j" "$CARGO_TARGET_DIR/extern.txt" <<'P'
import json, sys
lib = None
for l in open(sys.argv[1]):
    m = json.loads(l)
    if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "stylist":
        lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
open(sys.argv[2], "w").write(lib)
P
