#!/bin/bash
# Runs demo.rs against the repository in the current directory: exit 0 iff the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
for c in ckb_bf_vm ckb_bf_base halo2 halo2_gadgets halo2_proofs halo2curves poseidon; do ln -s "$repo/$c" "$d/$c"; done
mkdir -p "$d/demo/src"
cp "$here/demo.rs" "$d/demo/src/main.rs"
printf '[workspace]\nmembers = ["demo"]\n' > "$d/Cargo.toml"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
ckb_bf_vm = { path = "../ckb_bf_vm" }
ckb_bf_base = { path = "../ckb_bf_base" }
halo2_proofs = { path = "../halo2_proofs" }
halo2curves = { path = "../halo2curves" }
poseidon = { path = "../poseidon" }
rand_core = { version = "0.6", default-features = false }
T
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
P=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$P/rustc RUSTDOC=$P/rustdoc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
cd "$d" && cargo run --offline -q -p demo
