#!/bin/bash
# usage: check.sh build | check.sh ID quick|thorough | check.sh replay FILE
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin" VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/harness/target" RUSTFLAGS="--cap-lints allow"
unset CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p work evidence replays
build() {
    # numopt is always compiled again: file times say nothing when a tree was copied
    for f in "$PWD"/harness/target/release/.fingerprint/numopt-*; do
        [ -e "$f" ] && rm -r "$f"
    done
    cargo build --release --offline --locked --manifest-path harness/Cargo.toml >work/build.log 2>&1
}
exec 9>work/lock
flock 9
if ! build; then
    tail -40 work/build.log
    echo "ERROR the harness does not build against /repo"
    exit 2
fi
# a private copy: a later build must not replace a running program
bin="$PWD/work/bin.$$"
mkdir -p "$bin"
cp harness/target/release/mc harness/target/release/mcstub harness/target/release/mcreal "$bin/"
flock -u 9
exec 9>&-
trap 'rm -r "$bin"' EXIT
[ "$1" = build ] && exit 0
case "$1" in
    replay) id=$(sed -n 's/^property=//p' "$2" | head -1); set -- replay "$2" ;;
    *) id=$1; set -- run "$1" "${2:-quick}" ;;
esac
case "$id" in C12|C13|C14|C24) prog=mcstub ;; C19) prog=mcreal ;; *) prog=mc ;; esac
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 # read when the libraries are loaded
"$bin/$prog" "$@"
