#!/bin/bash
# Builds every harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cap-lints allow"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p evidence
(cd harness && cargo build --offline --locked) || exit 1
# one by one, as the checks do, so that features are not merged
for p in merkle-mon types-mon crawler-run p2p-mon web-mon wallet-mon mvp-mon; do (cd chain && cargo build --offline --locked -p $p) || exit 1; done
