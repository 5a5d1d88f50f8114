#!/bin/bash
# builds the extractor and the replay harness (each check rebuilds what changed)
cd "$(dirname "$0")" && mkdir -p gen evidence
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
(cd extract && cargo build --offline -q --release) && (cd harness && cargo build --offline -q)
