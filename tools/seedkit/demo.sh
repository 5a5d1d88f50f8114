#!/bin/bash
# Builds a small program against the contracts in the current directory and runs one scenario.
# exit 0: the behaviour is right; nonzero: the property is broken (or the program failed).
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE"/*.rs "$W/src/"
cp "$HERE/Cargo.lock" "$W/"
sed "s#@ROOT@#$ROOT#" "$HERE/Cargo.toml.in" > "$W/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target}
cd "$W" && cargo run --offline -q
