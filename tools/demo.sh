#!/bin/bash
# Run in the repository after its build. Compiles demo.rs against the library just built and runs it
# in a scratch directory that is removed afterwards.
here=$(cd "$(dirname "$0")" && pwd)
deps=$PWD/target/debug/deps
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
lib() { ls -t "$deps/lib$1-"*.rlib | head -1; }
rustc --edition 2021 -A warnings -C debuginfo=0 -L "dependency=$deps" \
    --extern "klavier_core=$(lib klavier_core)" --extern "klavier_helper=$(lib klavier_helper)" \
    --extern "serdo=$(lib serdo)" --extern "serde_json=$(lib serde_json)" \
    "$here/demo.rs" -o "$tmp/demo" || exit 2
cd "$tmp" || exit 2
mkdir work
TMPDIR=$tmp/work timeout 120 ./demo
