#!/bin/bash
# run with cwd = the hodor repository
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$here/common.rs" "$w/src/"
cp "$here/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hodor = { path = "$repo" }
ff = { package = "ff_ce", version = "0.7", features = ["derive"] }
rand = "0.4"
[profile.dev]
debug = false
opt-level = 1
incremental = false
overflow-checks = false
debug-assertions = false
T
export CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="--cfg hodor_verif -Awarnings"
cd "$w" || exit 2
cargo build --offline -q > build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout 120 ./target/debug/demo > out.log 2>&1
rc=$?
grep -a DEMO out.log
[ $rc -eq 0 ] || tail -5 out.log
exit $rc
