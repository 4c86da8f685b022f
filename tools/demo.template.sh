#!/bin/bash
# Builds demo.rs against the ethnum crate in the current directory and runs it.
# Exit 0: the property holds; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
mv "$d/src/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ethnum = { path = "$repo", features = ["serde"] }
serde = { version = "1", default-features = false }
[profile.dev]
debug = false
T
cd "$d" || exit 2
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true
timeout 250 cargo run --quiet --offline PROFILE
