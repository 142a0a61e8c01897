#!/bin/bash
# build the MIR dump driver when it is missing or out of date
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=${VERIF_WORK:-$HERE/.work}; mkdir -p "$W"
if [ ! -x "$W/mirdump" ] || [ "$HERE/driver/main.rs" -nt "$W/mirdump" ]; then
  cd "$HERE/driver" && rustc +nightly --edition 2021 -O main.rs -o "$W/mirdump.$$" >&2 && mv "$W/mirdump.$$" "$W/mirdump"
fi
