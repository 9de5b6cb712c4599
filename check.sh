#!/bin/bash
# check.sh <property id> [--case SECTION N]
# Builds the harness from /repo's current working tree and runs one property's monitors.
# exit 0: held; 1: VIOLATION line printed; 2: no answer (build failure, or nothing observed)
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.90.0 RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export PATH="$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
export CARGO_TARGET_DIR="$here/harness/target"
export MPCHECK_ROOT="$here"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
log="$(mktemp)"
if ! cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    grep -A8 '^error' "$log" | head -60
    echo "the harness does not build against /repo"
    rm -f "$log"
    exit 2
fi
rm -f "$log"
[ "${1:-}" = build ] && exit 0
# the limit only guards against a stuck harness; hangs of the code under test are reported by the
# watchdog inside it
limit=840
[ "$VERIF_TIER" = thorough ] && limit=7200
exec timeout -k 5 "$limit" "$CARGO_TARGET_DIR/debug/mpcheck" "$@"
