#!/bin/bash
# usage: check.sh ID [quick|thorough]   builds the harness from /repo's working tree, runs one check
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
[ $# -ge 2 ] && export VERIF_TIER=$2
bash "$ROOT/build.sh" "$1" || { echo "build failed" >&2; exit 2; }
exec "$ROOT/target/release/plv" "$1"
