#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$work/target RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="-A warnings -A semicolon_in_expressions_from_macros --cfg hastur_verif"
mkdir "$work/src" "$work/scratch"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
hastur = { path = "$repo" }
nom = { version = "4.2", features = ["verbose-errors"] }
[workspace]
T
cd "$work" || exit 3
cargo build --offline > log 2>&1 || { cat log; exit 3; }
SCRATCH=$work/scratch timeout 60 target/debug/demo
