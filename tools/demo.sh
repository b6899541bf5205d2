#!/bin/bash
# exit 0: the property holds here; nonzero: it does not. Run with cwd = the repository.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
curvo = { path = "$repo", features = ["serde"] }
nalgebra = "0.33.2"
serde_json = "1"
[profile.dev]
debug = 0
[workspace]
EOF
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" RUSTFLAGS="-Awarnings" cargo build --offline >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
