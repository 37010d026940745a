#!/bin/bash
# Builds main.rs (beside this file) against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp Cargo.lock "$tmp/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n[workspace]\n[dependencies]\n'
  cat "$here/deps" | while read -r crate; do
    printf '%s = { path = "%s/crates/%s" }\n' "$crate" "$PWD" "$crate"
  done
} > "$tmp/Cargo.toml"
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
mkdir "$tmp/scratch"
cd "$tmp/scratch" && timeout 60 "$tmp/target/debug/demo"
