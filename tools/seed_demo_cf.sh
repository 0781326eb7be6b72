#!/bin/bash
# demo.rs is a program that safe code must not be able to write: exit 0 when it is rejected by the compiler, otherwise its own exit status
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/bfdemo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "bfdemo"
version = "0.0.0"
edition = "2018"
[dependencies]
bellframe = { path = "$repo", default-features = false, features = ["serde", "method_lib_serde"] }
serde_json = "1.0"
[workspace]
EOF
for l in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do
  [ -f "$l" ] && cp "$l" "$d/Cargo.lock" && break
done
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
cd "$d" || exit 3
cargo build --offline --quiet --target-dir "$d/target" 2> "$d/build.log" || { grep -q "^error\[E0[0-9]*\]" "$d/build.log" && exit 0; cat "$d/build.log"; exit 3; }
"$d/target/debug/bfdemo"
