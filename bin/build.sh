#!/bin/bash
# Builds, from /repo's current working tree and with no network:
#   1. the nine contracts as release wasm (in /repo/target, where contractimport! expects them);
#   2. the harness (/verif/harness), which loads those wasm files at run time.
# Cargo does not see that some contracts embed other contracts' wasm, so the contracts are all
# rebuilt, in dependency order, whenever the sources or the wasm files on disk are not exactly
# the ones recorded after the previous build (about 15 s; nothing to do otherwise).
set -eo pipefail
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset CARGO_TARGET_DIR RUSTFLAGS
HERE=$(cd "$(dirname "$0")/.." && pwd)
cd /repo
mkdir -p target
exec 9>target/.vh-lock
flock 9

OUT=target/wasm32-unknown-unknown/release
STAMP=target/vh-wasm-stamp
PKGS="soroban-token-contract phoenix-stake-rewards phoenix-stake phoenix-pool phoenix-pool-stable phoenix-factory phoenix-multihop phoenix-trader phoenix-vesting"

state() {
    { find Cargo.toml Cargo.lock contracts packages -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum
      sha256sum $OUT/phoenix_*.wasm $OUT/soroban_token_contract.wasm 2>/dev/null || true; } | sha256sum
}

if [ "$(state)" != "$(cat $STAMP 2>/dev/null)" ]; then
    rm -f $STAMP
    for p in $PKGS curve soroban-decimal phoenix; do
        rm -rf $OUT/.fingerprint/$p-????????????????
    done
    for p in $PKGS; do
        feat=; [ $p = phoenix-vesting ] && feat=--all-features
        CARGO_INCREMENTAL=0 cargo build -q --offline --locked --release --target wasm32-unknown-unknown -p $p $feat 2>target/vh-wasm.log ||
            { cat target/vh-wasm.log >&2; exit 2; }
    done
    state > $STAMP
fi

cd "$HERE/harness"
cargo build -q --offline --target-dir /repo/target 2>/repo/target/vh-harness.log || { cat /repo/target/vh-harness.log >&2; exit 2; }
