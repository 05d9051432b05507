#!/bin/bash
# Builds the simulator against /repo's working tree with the hooks on.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_TARGET_DIR="${SIM_TARGET:-$(cd .. && pwd)/target}" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg sql_parse_sim"
unset RUSTC_WRAPPER
exec cargo build --release --offline --quiet
