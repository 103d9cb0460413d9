#!/bin/bash
# exit 0 when the behaviour is right
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.lock.txt" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
jagua-rs = { path = "$R/jagua-rs", @FEAT@ }
@LBF@
serde_json = "1.0"
rand = { version = "0.8.5", features = ["small_rng"] }
tribool = "0.3.0"
slotmap = "1.0"
[profile.dev]
opt-level = 1
debug-assertions = false
debug = false
X
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
cd "$T" && cargo build --offline -q 2>"$T/err" || { cat "$T/err" >&2; exit 99; }
timeout 120 "$T/target/debug/demo" "$R"
