#!/bin/bash
# Builds every harness once (each check rebuilds what it needs from /repo's tree).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
for c in mc mc_stream; do
    cargo build --offline --release --manifest-path $c/Cargo.toml --target-dir "$PWD/target" || exit 2
done
cargo build --offline --manifest-path mc_stack/Cargo.toml --target-dir "$PWD/target" || exit 2
