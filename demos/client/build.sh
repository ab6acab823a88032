#!/bin/bash
# build the demonstration client
. /opt/vp/env.sh
cd "$(dirname "$0")" && RUSTUP_TOOLCHAIN=1.89.0 CARGO_TARGET_DIR=../../.build/demos cargo build --release --offline --target wasm32-unknown-unknown
