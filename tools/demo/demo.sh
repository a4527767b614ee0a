#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it:
# exit 0 when the property holds, 1 when it is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"; mv "$work/src/demo.rs" "$work/src/main.rs"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
[ -f "$here/Cargo.lock.in" ] && cp "$here/Cargo.lock.in" "$work/Cargo.lock"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
if ! (cd "$work" && cargo build --offline) > "$work/log" 2>&1; then
  tail -30 "$work/log"
  exit 2
fi
cd "$work" && timeout 120 "$work/target/debug/demo"
