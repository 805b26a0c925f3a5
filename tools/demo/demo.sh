#!/bin/bash
# Builds the demonstration beside this file against the sources in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "${w:?}"' EXIT
mkdir "$w/spdm"
for f in Cargo.toml Cargo.lock build.rs config.rs.template spdm-config.toml spdm-config-crypto.toml src test-utils; do
    cp -a "$repo/$f" "$w/spdm/" || exit 2
done
mkdir "$w/spdm/tests"
cp "$here/demo.rs" "$w/spdm/tests/vp_demo.rs"
[ -e "$here/harness.rs" ] && cp "$here/harness.rs" "$w/harness.rs"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
cd "$w/spdm" || exit 2
if grep -q '^// no-crypto' "$here/demo.rs"; then
    env -u SPDM_CONFIG cargo test --offline --target-dir "$repo/target/nocrypto" --test vp_demo -- --test-threads 1
else
    SPDM_CONFIG=spdm-config-crypto.toml cargo test --features crypto-ring --offline --target-dir "$repo/target/crypto" --test vp_demo -- --test-threads 1
fi
