#!/bin/bash
# check.sh build | check.sh ID [quick|thorough] | check.sh replay FILE | check.sh determinism ...
# Builds the simulator and /repo with the hooks on, then runs the check of one property.
# Exit 0: held on everything explored. Exit 1: VIOLATION. Anything else: an error of the check.
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export RUSTFLAGS="--cfg fundsp_sim"
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
HERE=$(cd "$(dirname "$0")" && pwd)
export FSIM_VERIF=$HERE
LOG=$(mktemp) || exit 2
if ! cargo build --offline --manifest-path "$HERE/sim/Cargo.toml" --target-dir "$HERE/sim/target" > "$LOG" 2>&1; then
    cat "$LOG" >&2
    rm -f "$LOG"
    echo "check.sh: build failed" >&2
    exit 2
fi
rm -f "$LOG"
FSIM=$HERE/sim/target/debug/fsim
case "$1" in
    build) exit 0 ;;
    replay|determinism|list) exec "$FSIM" "$@" ;;
    *) exec "$FSIM" check "$@" ;;
esac
