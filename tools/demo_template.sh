#!/bin/bash
# exit 0: the property's behaviour is intact; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
fawkes-crypto = { path = "$repo" }
fawkes-crypto_derive = { path = "$repo/fawkes-crypto_derive" }
rand = "=0.4"
num = "0.2.1"
typenum = "=1.12.0"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
borsh = "0.7.0"
linked-list = "0.0.3"
bellman = { version = "=0.3.1", package = "bellman_ce", default-features = false }
ff = { version = "=0.7", features = ["derive"], package = "ff_ce" }
pairing = { version = "=0.18", package = "pairing_ce" }
[profile.dev]
opt-level = 1
debug = 0
T
cd "$w" && cargo run --offline --quiet 2>"$w/err"
rc=$?
if [ $rc -ne 0 ]; then tail -20 "$w/err" >&2; fi
exit $rc
