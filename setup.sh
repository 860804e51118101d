#!/bin/bash
# Builds the extractor and the harness crate (path dependency on /repo), offline.
set -e
cd "$(dirname "$0")"
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_AUTO_INSTALL=0 CARGO_INCREMENTAL=1
mkdir -p .build evidence
(cd vx && cargo build --offline --release -q --locked --target-dir /verif/.build/vx)
cd harness
cp Cargo.lock /verif/.build/Cargo.lock.keep
RUSTUP_TOOLCHAIN=1.97.1 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= cargo build --offline -q --target-dir /verif/.build/harness --bins || true
cmp -s Cargo.lock /verif/.build/Cargo.lock.keep || cp /verif/.build/Cargo.lock.keep Cargo.lock
exit 0
