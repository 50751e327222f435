#!/bin/bash
# Builds the demonstration beside this script as a test of the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/tests"
: > "$work/src/lib.rs"
cp "$here/demo.rs" "$work/tests/demo.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cw-ica-controller = { path = "$repo" }
cw-ica-controller-derive = { path = "$repo/derive" }
cosmwasm-schema = "2.1"
cosmwasm-std = { version = "2.1", features = ["cosmwasm_1_4", "stargate", "staking"] }
cosmos-sdk-proto = { version = "0.23", default-features = false, features = ["cosmwasm", "std"] }
cw-ownable = "2.0"
cw2 = "2.0"
anybuf = "0.5"
serde-json-wasm = "1.0"
cw-storage-plus = "2.0"
ibc-proto = { version = "0.47", default-features = false, features = ["std", "serde"] }
TOML
cd "$work" && CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo test --offline --test demo
