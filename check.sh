#!/bin/bash
# bash /verif/check.sh PROPERTY [--replay FILE]
# Builds the check binary for PROPERTY from /repo's current working tree and runs it.
set -u
ID=${1:?property id}
export VERIF_ROOT=/verif
export RUSTUP_TOOLCHAIN=nightly-2025-05-17
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${VP_TARGET:-/verif/target}
export PATH=/root/.cargo/bin:$PATH
case "$ID" in
    U*) dir=harness_utils bin=utils ;;
    L*) dir=harness_std bin=stdlib ;;
    *) dir=harness bin=$(sed -n "s/^$ID //p" /verif/bins.txt) ;;
esac
[ -n "$bin" ] || { echo "unknown property $ID" >&2; exit 2; }
mkdir -p /verif/out /verif/evidence
# the M checks watch with AddressSanitizer
build=() out=debug
if [ "${ID:0:1}" = M ]; then
    export RUSTFLAGS="-Zsanitizer=address --cfg vp_asan"
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1
    build=(--target x86_64-unknown-linux-gnu) out=x86_64-unknown-linux-gnu/debug
fi
log=/verif/out/build.$bin.$$.log
if ! (cd /verif/$dir && cargo build --offline --locked -q --bin "$bin" "${build[@]}") >"$log" 2>&1; then
    echo "build of $bin failed" >&2
    grep -E '^(error|warning: unused)' -A6 "$log" | grep -A6 ^error | head -60 >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/$out/$bin" "$@"
