#!/bin/bash
# Builds the harness (and with it /repo, hooks on) into /verif/target; for the checks of the
# program (M*, or no argument) also the plain program into /verif/target/cli.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
mkdir -p target
# cargo judges freshness by mtime; always recompile the crate under test
rm -rf "$PWD"/target/release/.fingerprint/plusendi-*
RUSTFLAGS="--cfg plusendi_verif -Awarnings" CARGO_TARGET_DIR=$PWD/target \
  cargo build --release --offline --locked --manifest-path harness/Cargo.toml 2>"$PWD/target.build.log" || { cat "$PWD/target.build.log" >&2; exit 2; }
case "${1:-M}" in M*)
  rm -rf "$PWD"/target/cli/debug/.fingerprint/plusendi-*
  RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=$PWD/target/cli \
    cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin plusendi 2>"$PWD/target.build.log" || { cat "$PWD/target.build.log" >&2; exit 2; } ;;
esac
rm -f "$PWD/target.build.log"
