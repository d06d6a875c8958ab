#!/bin/bash
# check.sh ID quick|thorough: builds the checker against the working tree of /repo and decides property ID.
# check.sh build: builds only.
set -u
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
target=$PWD/mc/target
mkdir -p "$target" evidence replays
log=$target/build.log

# Cargo looks at modification times, which may be older than those of a previous build in another
# state of the tree: rebuild the crate whenever its sources differ.
state=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$state" != "$(cat "$target/state" 2>/dev/null)" ]; then
    find "$target" -maxdepth 4 -path '*/.fingerprint/jotdown-*' -prune -exec rm -r {} +
fi

build() {
    if ! "$@" >"$log" 2>&1; then
        tail -n 60 "$log" >&2
        echo "build failed: $*" >&2
        exit 3
    fi
}
rust() {
    build cargo build --release --offline --manifest-path mc/Cargo.toml --target-dir "$target"
}
cli() {
    (cd /repo && build cargo build --offline --locked --features cli --bin jotdown --target-dir "$target/cli") || exit 3
}

case ${1-} in
    build)
        rust
        cli
        ;;
    *)
        rust
        if [ "$1" = C30 ]; then
            cli
            export MC_CLI=$target/cli/debug/jotdown
        fi
        ;;
esac
echo "$state" >"$target/state"
[ "$1" = build ] && exit 0
exec "$target/release/mc" check "$1" "${2-quick}"
