#!/bin/bash
# exit 0: the property holds on demo.rs's scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/bfdemo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "bfdemo"
version = "0.0.0"
edition = "2018"
[dependencies]
bellframe = { path = "$repo", default-features = false, features = ["serde", "method_lib_serde"] }
serde = "1.0"
serde_json = "1.0"
[workspace]
EOF
for l in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do
  [ -f "$l" ] && cp "$l" "$d/Cargo.lock" && break
done
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
cd "$d" || exit 3
cargo build --offline --quiet --target-dir "$d/target" 2> "$d/build.log" || { cat "$d/build.log"; exit 3; }
"$d/target/debug/bfdemo"
