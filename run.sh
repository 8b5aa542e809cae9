#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE | --seed N | --only NAME]
# Builds the check of this property against /repo's working tree and runs it.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="--cfg hodor_verif -Awarnings"
export CARGO_TARGET_DIR="${VERIF_TARGET_DIR:-$VERIF_DIR/target}"
unset CARGO_BUILD_TARGET
# the code under test makes very many threads: keep their stacks
export GLIBC_TUNABLES=glibc.pthread.stack_cache_size=2000000000
ID="$1"; shift
TIER="${VERIF_TIER:-quick}"
if [ "${1:-}" = quick ] || [ "${1:-}" = thorough ]; then TIER="$1"; shift; fi
export VERIF_TIER="$TIER"
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
if [ "$ID" = build ]; then
    cd "$VERIF_DIR/harness" && exec cargo build --release --quiet "$@"
fi
LOG="$(mktemp)"
if ! (cd "$VERIF_DIR/harness" && cargo build --release --quiet --bin "$BIN") >"$LOG" 2>&1; then
    echo "ERROR property=$ID the check does not build:"; tail -40 "$LOG"; rm -f "$LOG"; exit 2
fi
rm -f "$LOG"
"$CARGO_TARGET_DIR/release/$BIN" --tier "$TIER" "$@"
RC=$?
if [ $RC = 139 ] || [ $RC = 135 ]; then
    VERIF_SIGNAL_STACKS=1 "$CARGO_TARGET_DIR/release/$BIN" --tier "$TIER" "$@"
    RC=$?
fi
exit $RC
