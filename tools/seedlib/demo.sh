#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export REPO=$PWD
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
mv "$d/src/demo.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
vaux-mqtt = { path = "$repo/vaux-mqtt" }
$(grep -qs 'vaux_broker' "$here"/*.rs && echo "vaux-broker = { path = \"$repo/vaux-broker\" }")
$(grep -qs 'vaux_client' "$here"/*.rs && echo "vaux-client = { path = \"$repo/vaux-client\" }")
$(grep -qs 'vaux_async' "$here"/*.rs && echo "vaux-async = { path = \"$repo/vaux-async\" }")
bytes = "1"
tokio = { version = "1", features = ["full"] }
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo build -q --offline >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
exec_demo() { timeout -k 5 120 "$d/target/debug/demo"; }
exec_demo
rc=$?
[ $rc = 0 ] && exit 0
echo "demo: $rc"
exit 1
