#!/bin/bash
# Runs in the repository's root after its build. 0: the property holds here.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
prof=release
[ -f "$here/debug" ] && prof=dev
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
libm = { path = "$PWD/libm" }
[workspace]
T
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
(cd "$d" && cargo build -q --offline --profile $prof 2>"$d/err") || { cat "$d/err"; exit 3; }
bin="$d/target/release/demo"; [ $prof = dev ] && bin="$d/target/debug/demo"
timeout -k 5 200 "$bin"
