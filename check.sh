#!/bin/bash
# bash check.sh Cxx [quick|thorough] | setup | replay FILE
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
exec python3 tools/check.py "$@"
