#!/bin/bash
# Runs the scenario in demo/src/main.rs against the repository in the current directory.
set -u
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/demo" "$scratch/demo" || exit 2
sed "s#@REPO@#$repo#" "$here/demo/Cargo.toml.in" > "$scratch/demo/Cargo.toml"
cd "$scratch/demo" || exit 2
export CARGO_TARGET_DIR="$scratch/target"
cargo build --release --offline >"$scratch/log" 2>&1 || { tail -40 "$scratch/log"; echo "demo: build failed"; exit 2; }
timeout 200 "$scratch/target/release/demo"
