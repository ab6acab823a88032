#!/bin/bash
# Build the command line tool's modules around stand-ins for terminal, files and network, and play one command.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/clidemo.XXXXXX); trap 'rm -rf "$T"' EXIT
tar xzf "$D/cli.tar.gz" -C "$T" && python3 "$T/cli/make.py" "$T/c" "$PWD" || exit 3
(. /opt/vp/env.sh 2>/dev/null; cd "$T/c" && RUSTUP_TOOLCHAIN=1.89.0 CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/t" CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="-Clink-arg=--allow-multiple-definition" cargo build --release --offline --target wasm32-unknown-unknown) > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 4; }
node "$D/ic.mjs" "$D/client.wasm.gz" @DEMO@ -m "$T/t/wasm32-unknown-unknown/release/cli.wasm"
