#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the simulator against /repo's working tree if the
# sources changed, and run the property's simulations. Exit 0 held, 1 VIOLATION, 2 error.
# check.sh build: only build. check.sh replay FILE: run a replay file again.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" SIM_BASE="$here" SIM_KNOWN="$here/KNOWN_FINDINGS.txt"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
mkdir -p target evidence replays

build() {
    # judged by content, not by mtime
    local sum
    sum=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml sim/Cargo.toml sim/Cargo.lock
             find sim/src -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } 2>/dev/null | sha256sum | cut -d' ' -f1)
    if [ "$(cat target/.built 2>/dev/null)" = "$sum" ] && [ -x target/debug/sim ]; then
        return 0
    fi
    rm -f target/.built
    rm -rf "$here"/target/debug/.fingerprint/parquet-format-safe-* "$here"/target/debug/.fingerprint/sim-*
    if ! cargo build --offline --locked --manifest-path sim/Cargo.toml >target/build.log 2>&1; then
        grep -E '^error' -A 12 target/build.log >&2 || tail -40 target/build.log >&2
        return 1
    fi
    echo "$sum" >target/.built
}

exec 9>target/.lock
flock 9
if ! build; then
    echo "error of the check: the simulator does not build against /repo" >&2
    exit 2
fi
# several checks may run at once: each works on the binary it was built with
case "${1:-}" in
build) exit 0 ;;
replay) flock -u 9; exec 9>&-; exec target/debug/sim replay "$2" ;;
C[0-9][0-9])
    flock -u 9
    exec 9>&-
    exec target/debug/sim check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*) echo "usage: check.sh PROPERTY [quick|thorough] | build | replay FILE" >&2; exit 2 ;;
esac
