#!/bin/bash
# Pack the canisters' already built third-party dependencies (nothing of /repo itself), so that a check
# in a fresh copy only has to compile /repo's own crates. cargo rebuilds whatever does not match.
set -e
rm -rf /tmp/vpack; mkdir /tmp/vpack; cp -a /verif/.build/canisters /tmp/vpack/
cd /tmp/vpack/canisters
find . \( -path '*/.fingerprint/*' -o -path '*/deps/*' -o -path '*/build/*' \) -maxdepth 5 \( -name 'core_nft*' -o -name 'core-nft*' -o -name 'index_icrc7*' -o -name 'libcore_nft*' -o -name 'libindex_icrc7*' \) -prune -exec rm -rf {} +
rm -rf wasm32-unknown-unknown/release/*.wasm wasm32-unknown-unknown/release/*.d wasm32-unknown-unknown/release/incremental release/incremental .rustc_info.json
find . -name '*.d' -path '*/deps/*' | head -0
tar c -C /tmp/vpack canisters | zstd -19 --long=27 -T8 -q -f -o /verif/deps.tar.zst
rm -rf /tmp/vpack; ls -la /verif/deps.tar.zst
