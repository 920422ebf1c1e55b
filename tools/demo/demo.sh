#!/bin/bash
# Builds main.rs (beside this file) against /repo's crates and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64-v2 --cap-lints allow"
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.toml" "$d/Cargo.toml"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR=$d/target cargo build --offline >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
timeout 200 "$d/target/debug/demo"
