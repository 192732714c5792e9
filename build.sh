#!/bin/bash
# Builds the checkers from /repo's current working tree (offline). usage: build.sh [mc|mcreal]...
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-Awarnings"
export CARGO_TARGET_DIR="$HERE/target"
[ $# -eq 0 ] && set -- mc mcreal
mkdir -p "$HERE/target"
HASH=$(cd /repo && { find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -c1-64)
for crate in "$@"; do
  # never trust file times alone: a changed source always rebuilds klavier-core
  if [ "$(cat "$HERE/target/.src-hash-$crate" 2>/dev/null)" != "$HASH" ]; then
    find "$HERE/target/release/.fingerprint" -maxdepth 1 -name 'klavier-core-*' -exec rm -rf {} + 2>/dev/null
  fi
  if ! cargo build --release --offline --locked --manifest-path "$HERE/$crate/Cargo.toml" >"$HERE/target-$crate.log" 2>&1; then
    cat "$HERE/target-$crate.log" >&2
    echo "build of $crate failed" >&2
    exit 2
  fi
  echo "$HASH" > "$HERE/target/.src-hash-$crate"
done
