#!/bin/bash
# tools/mkseed.sh ID : (re)packs the kit a compiled demonstration needs into seeded/ID.
set -e
D=/verif/seeded/$1
T=$(mktemp -d)
cp -a /verif/tools/kit/. "$T/"
cp -a /verif/shims "$T/shims"
mkdir "$T/crates"
cp -a /verif/crates/expander_compiler /verif/crates/macros "$T/crates/"
[ -d /verif/crates/circuit-std-rs ] && cp -a /verif/crates/circuit-std-rs "$T/crates/"
tar -C "$T" --sort=name --mtime=2026-01-01 --owner=0 --group=0 -cf - . | gzip -n >"$D/kit.tgz"
rm -rf "$T"
cat >"$D/demo.sh" <<'S'
#!/bin/bash
# Builds demo.rs against the repository's real expander_compiler (stand-ins for its missing
# dependencies are in kit.tgz) and runs it.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar -C "$T" -xzf "$H/kit.tgz"
cp "$H/demo.rs" "$T/src/main.rs"
cd "$T" || exit 1
export RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR=$T/target PATH=/root/.cargo/bin:$PATH
cargo build --offline --locked -q 2>"$T/log" || { grep -A8 ^error "$T/log" | head -60; exit 1; }
timeout 200 "$T/target/debug/demo"
S
