#!/bin/bash
# check.sh <property> <quick|thorough> [--only group:index]
# check.sh --build only builds.
# Rebuilds the harness against /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
id=$1 tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export VERIF_DIR=$here CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export RUSTFLAGS="--cfg iota_mam_verif -Awarnings" CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/target"
(
    flock 9
    # file times do not decide whether the crate is rebuilt
    find "$here/target/debug" "$here/target/release" -maxdepth 2 \( -path '*/.fingerprint/iota-mam-*' -o -path '*/incremental/iota_mam-*' \) -exec rm -rf {} + 2>/dev/null
    cargo build -q --release --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$here/target/build-release.log" 2>&1 &
    cargo build -q --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$here/target/build.log" 2>&1
    a=$?
    wait $! && [ $a -eq 0 ]
) 9>"$here/target/.lock"
if [ $? -ne 0 ]; then
    echo "the harness does not build against /repo:" >&2
    tail -n 40 "$here/target/build.log" "$here/target/build-release.log" >&2
    exit 2
fi
[ "$id" = --build ] && exit 0
# first with debug assertions and overflow checks, then, if nothing was found, as users build it
"$here/target/debug/mamcheck" "$id" --tier "$tier" "$@" || exit
exec "$here/target/release/mamcheck" "$id" --tier "$tier" "$@"
