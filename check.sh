#!/bin/bash
# check.sh <ID> [quick|thorough]: build the checker from /repo's working tree and decide property <ID>.
# check.sh build: only build.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=$V
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p "$V/build" "$V/evidence"

# build <target directory> <rustc flags>
build() {
    export CARGO_TARGET_DIR=$1 RUSTFLAGS=$2
    mkdir -p "$1"
    # Cargo goes by modification times; go by content instead, as a file may come back with an old time.
    local sum
    sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 \
        | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$1/.repo-sum" 2>/dev/null)" != "$sum" ]; then
        clean "$1" 'owned_subslice-*' 'socket-io-*'
        rm -f "$1/.repo-sum"
    fi
    (cd "$V/mc" && cargo build --offline --locked) >"$V/build/build.log" 2>&1 || return 1
    echo "$sum" >"$1/.repo-sum"
}

clean() {
    local t=$1 p
    shift
    for p in "$@"; do
        find "$t/debug/.fingerprint" -maxdepth 1 -name "$p" -exec rm -rf {} + 2>/dev/null
    done
}

exec 9>"$V/build/lock"
flock 9
T=$V/target
if ! build "$T" "--cfg sio_mc"; then
    # Once more from a clean slate, should the incremental state be at fault.
    clean "$T" 'owned_subslice-*' 'socket-io-*' 'mc*'
    if ! build "$T" "--cfg sio_mc"; then
        # The guarded hook may be what does not fit this tree. Without it, registry locks are no
        # scheduling points of their own; what they block on still is.
        T=$V/target-plain
        if ! build "$T" ""; then
            grep -E '^error' -A12 "$V/build/build.log" | head -60 >&2
            echo "the checker does not build against this tree" >&2
            exit 2
        fi
        echo "note: built without --cfg sio_mc" >&2
    fi
fi
flock -u 9
exec 9>&-
[ "$ID" = build ] && exit 0
exec "$T/debug/mc" check "$ID" "$TIER"
