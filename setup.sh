#!/bin/bash
# Builds the harness once, to show that it builds offline from the committed
# files. Every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd harness && CARGO_TARGET_DIR=../target/dbg cargo build --offline --quiet --lib 2>/dev/null) || exit 1
exit 0
