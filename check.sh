#!/bin/bash
# check.sh <property> [options]: builds what the check needs from /repo's working tree and runs it
# check.sh --build: only builds
set -u
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET LD_PRELOAD
V=$(cd "$(dirname "$0")" && pwd)
export DST_VERIF=$V
cd "$V" || exit 2
mkdir -p .build evidence
P=${1:?usage: check.sh <property>}; shift

build() {
    # whether the sources have changed is decided by their content: their times may be older than the last build
    local sum
    sum=$( (cat shim/tsim.c shim/tsim.h; cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat .build/stamp 2>/dev/null)" != "$sum" ]; then
        rm -f "$V/.build/stamp" "$V/.build/libtsim.so"
        cargo clean -q --offline --manifest-path /repo/Cargo.toml --target-dir "$V/.build/tools" -p telda2 2>/dev/null
        cargo clean -q --release --offline --manifest-path harness/Cargo.toml --target-dir "$V/.build/harness" -p telda2 2>/dev/null
    fi
    if [ ! -e .build/libtsim.so ]; then
        gcc -O1 -shared -fPIC -fvisibility=hidden -o .build/libtsim.so.new shim/tsim.c -ldl && mv .build/libtsim.so.new .build/libtsim.so || return 1
    fi
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        cargo build -q --offline --manifest-path /repo/Cargo.toml --target-dir "$V/.build/tools" --bins || return 1
    # the helper and the machine simulator use the library; the process simulator does not
    for b in $1; do
        cargo build -q --release --offline --manifest-path harness/Cargo.toml --target-dir "$V/.build/harness" --bin $b || return 1
    done
    echo "$sum" > .build/stamp
}

KEY=$P
case $P in
    replay) KEY=$(basename "${1:?replay file}") KEY=${KEY%%-*} ;;
    show|determinism) KEY=${1:?property} ;;
esac
case $KEY in
    --build) BINS="dst dsth dstm" RUN= ;;
    C11|C12|C13|C14|C15|C16|C18|C19|C20|C21|C22|C24) BINS="dstm dsth" RUN=dstm ;;
    C01|C03|C07) BINS="dst dsth" RUN=dst ;;
    *) BINS="dst" RUN=dst ;;
esac
(
    flock 9
    build "$BINS"
) 9> .build/lock > .build/build.log 2>&1
if [ $? -ne 0 ]; then
    cat .build/build.log >&2
    echo "check.sh: the build failed" >&2
    exit 2
fi
[ -n "$RUN" ] || exit 0
case $P in
    replay|show|determinism) ;; # check.sh replay <file>, show <property> <seed> <run>, determinism <property> [runs]
    *) set -- "$P" "$@"; P=check ;;
esac
exec "$V/.build/harness/release/$RUN" "$P" "$@"
