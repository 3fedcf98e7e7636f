#!/bin/bash
# Builds every check binary once (each check rebuilds what it needs anyway).
export RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${VP_TARGET:-/verif/target} PATH=/root/.cargo/bin:$PATH
for d in harness_utils harness harness_std; do
    (cd /verif/$d && cargo build --offline --locked -q --bins 2>&1 | grep -E '^error' -A8 | head -40)
done
# those of the M checks once more, with AddressSanitizer
bins=$(sed -n 's/^M[0-9]* \(.*\)/--bin \1/p' /verif/bins.txt)
(cd /verif/harness && RUSTFLAGS="-Zsanitizer=address --cfg vp_asan" cargo build --offline --locked -q $bins --target x86_64-unknown-linux-gnu 2>&1 | grep -E '^error' -A8 | head -40)
exit 0
