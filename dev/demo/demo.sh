#!/bin/bash
# Run with cwd = the repository. Builds main.rs (beside this file) against the repository's crates and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$repo/target
unset http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY RUSTFLAGS
unset LOGREDUCE_CACHE LOGREDUCE_LOG LOGREDUCE_SSL_NO_VERIFY
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME=$work/cache DEMO_DIR=$work/data
mkdir -p "$work/src" "$work/cache" "$work/data"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/"
sed "s,@REPO@,$repo,g" "$here/Cargo.toml.in" > "$work/Cargo.toml"
[ -e "$here/env" ] && . "$here/env"
cd "$work" || exit 9
cargo build -q --offline || exit 8
timeout 120 "$CARGO_TARGET_DIR/debug/$(sed -n 's/^name = "\(.*\)"/\1/p' Cargo.toml | head -1)"
