#!/bin/bash
# Builds the harness against /repo's working tree and runs the check of a property:
#   run.sh ID [--tier quick|thorough] [--seed N] [--sub NAME] [--replay FILE]
# Exit: 0 held, 1 violation (and a VIOLATION line), anything else is an error of the check.
cd "$(dirname "$0")" || exit 2
export PBT_ROOT="$PWD" HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PBT_ROOT/target" RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cargo build -q --offline --locked --message-format short --manifest-path harness/Cargo.toml 2> target-build.log || {
    cat target-build.log; echo "ERROR: the harness does not build"; exit 4; }
# The applications, which some checks run
app() {
    # A file git ignores there
    [ -f /repo/Cargo.lock ] || cp tools/repo.lock /repo/Cargo.lock
    CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build -q --offline --message-format short \
        --manifest-path /repo/Cargo.toml -p "$1" --target-dir target/apps 2> target-build.log || {
        cat target-build.log; echo "ERROR: $1 does not build"; exit 4; }
}
case "$1" in
    C21) app eval ;;
    C22|C24) app prexel-server ;;
    C25) variants/build.sh target/variants || { echo "ERROR: the variants do not build"; exit 4; } ;;
esac
[ "$1" = --build ] && exit 0
ulimit -v 20000000
limit=850
[ "${VERIF_TIER:-}" = thorough ] && limit=14000
case " $* " in *" thorough "*) limit=14000;; esac
timeout -k 10 $limit target/debug/pbt "$@"
