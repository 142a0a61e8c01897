#!/bin/bash
# dump.sh OUT.json [cargo feature args...]   (env: REL=1 for release-like flags)
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=${VERIF_WORK:-$HERE/.work}; mkdir -p "$W"
out=$(realpath -m "$1"); shift
SYS=$(rustc +nightly --print sysroot)
bash "$HERE/tools/driver.sh" >&2
T=$(mktemp -d "$W/tgt.XXXXXX")
trap 'rm -rf "$T"' EXIT
SRC=${VERIF_REPO:-/repo}
M=$SRC/Cargo.toml
if [ ! -e "$SRC/Cargo.lock" ] && [ -e /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$SRC/Cargo.lock"; fi
export CARGO_TARGET_DIR=$T LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=$W/mirdump MIRDUMP_CRATE=quick_cache MIRDUMP_OUT=$out
export MIRDUMP_EXT="core::option:core::result:<core::option:<core::result:core::bool"
if [ -n "$REL" ]; then export RUSTFLAGS="-C debug-assertions=off -C overflow-checks=off"; fi
cargo +nightly check --offline --lib --manifest-path $M "$@" >&2
