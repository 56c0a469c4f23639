#!/bin/bash
# check.sh <property> [quick|thorough] : builds the checker against /repo's working tree and runs it
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/mc/target MC_ROOT=/verif
unset RUSTFLAGS
cd /verif/mc || exit 2
log=$(mktemp) || exit 2
if ! cargo build --release --offline --quiet >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "check error: the checker does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    self) exec "$CARGO_TARGET_DIR/release/mc" self ;;
    replay) exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
    *) exec "$CARGO_TARGET_DIR/release/mc" run "$1" "${2:-${VERIF_TIER:-quick}}" $3 ;;
esac
