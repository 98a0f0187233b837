#!/bin/bash
# builds the framework once, offline; every check rebuilds what it needs by itself
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/.build" "$V/evidence" "$V/replays"
cd "$V/harness" || exit 1
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$V/.build/std cargo +stable build --release --offline || exit 1
CARGO_TARGET_DIR=$V/.build/int RUSTFLAGS="--cfg adhoc_verif" cargo +stable build --release --offline --features internal || exit 1
python3 -c 'import json; json.load(open("'"$V"'/MANIFEST.json"))'
