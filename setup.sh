#!/bin/bash
# builds what the checks share; nothing here decides a property
cd "$(dirname "$0")" || exit 1
mkdir -p evidence work
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings
(cd engine && cargo build --release --offline) || exit 1
exit 0
