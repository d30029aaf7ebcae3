#!/bin/bash
# Builds the small program beside this file against the repository in the current directory and runs it.
# 0: the library behaves; 1: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$work"' EXIT
cp "$here/main.rs" "$here/common.rs" "$here/Cargo.lock" "$work/" || exit 2
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" >"$work/Cargo.toml" || exit 2
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet >"$work/log" 2>&1 || { tail -20 "$work/log"; exit 2; }
timeout 200 "$work/target/debug/demo"
