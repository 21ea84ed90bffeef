#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>   build from /repo's working tree and run one check
# run.sh replay <file>                 run the failing case recorded in a replay file again
# run.sh build                         only build
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
log=$(mktemp /tmp/tv-build.XXXXXX)
trap 'rm -f "$log"' EXIT

# The monitors that look inside of the runtime use hooks in /repo that exist
# only with --cfg tic_verif. If those do not fit the current tree then build
# without them: everything that is observable from the outside is still checked.
build_harness() {
    (cd "$here/harness" && RUSTFLAGS="--cfg tic_verif -Awarnings" cargo build --release --offline --target-dir "$here/target/h") >"$log" 2>&1 && return
    if (cd "$here/harness" && RUSTFLAGS="-Awarnings" cargo build --release --offline --target-dir "$here/target/h") >"$log.2" 2>&1; then
        rm -f "$log.2"
        echo "note: hooks do not build on this tree, going without them"
        return
    fi
    echo "harness build failed"; tail -40 "$log.2"; rm -f "$log.2"; exit 2
}
build_bin() { # package
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true RUSTFLAGS="-Awarnings" cargo build --release --offline --manifest-path /repo/Cargo.toml -p "$1" --target-dir "$here/target/bins" >"$log" 2>&1 || {
        echo "build of $1 failed"; tail -40 "$log"; exit 2; }
}

# P33 runs under Miri, an interpreter of Rust in the nightly toolchain
build_miri() {
    (cd "$here/miri" && MIRIFLAGS="-Zmiri-disable-isolation" RUSTFLAGS="--cfg tic_verif -Awarnings" cargo +nightly miri run --quiet --offline --target-dir "$here/target/miri" -- /dev/null 0) >"$log" 2>&1 || {
        echo "note: the program for miri does not run:"; tail -5 "$log"; }
}

# P23 runs a copy of ticc-eval (see jit/build.rs)
build_jit() {
    (cd "$here/jit" && RUSTFLAGS="-Awarnings" cargo build --release --offline --target-dir "$here/target/jit") >"$log" 2>&1 || {
        rm -f "$here/target/jit/release/tv-jit"
        echo "note: the copy of ticc-eval does not build:"; tail -5 "$log"; }
}

case "${1:-}" in
    build) build_miri; build_jit; build_harness; build_bin ticc; build_bin ticc-lsp; exit 0 ;;
    replay)
        build_harness; build_bin ticc; build_bin ticc-lsp; build_jit
        "$here/target/h/release/tv" replay "$2"; exit $? ;;
esac
prop=$1; tier=${2:-quick}
case "$prop" in
    P26|P27|P28|P29) build_bin ticc-lsp ;;
    P30|P31) build_bin ticc ;;
    P33) build_miri ;;
    P23) build_jit ;;
esac
build_harness
"$here/target/h/release/tv" check "$prop" "$tier"
exit $?
