#!/bin/bash
# Run with cwd = the repository. Builds a scratch crate against it and runs demo.rs: exit 0 = behaviour as it should be.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS
d="$(mktemp -d)" || exit 1
trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
mv "$d/src/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
antlr-rust = { path = "$repo" }
bit-set = "=0.5.3"
[profile.dev]
debug = "line-tables-only"
T
export CARGO_TARGET_DIR="$d/target" DEMO_REPO="$repo"
cd "$d" || exit 1
cargo build --offline >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
