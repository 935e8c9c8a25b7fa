#!/bin/bash
# Builds the harness once, from the committed files and /repo's working tree.
cd "$(dirname "$0")/harness" || exit 1
export CARGO_NET_OFFLINE=true
mkdir -p ../evidence/replay target
cargo build --release --offline --bin check --bin portable
