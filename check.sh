#!/bin/bash
# ./check.sh <ID> : builds the check against /repo's current tree and runs it (VERIF_TIER, VERIF_SEED)
# ./check.sh <ID> thorough : the same at the thorough tier, whatever VERIF_TIER says
# ./check.sh <ID> replay FILE : runs one saved case
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
ID="$1"; shift
if [ "$1" = thorough ]; then export VERIF_TIER=thorough; shift; fi
bin="${ID,,}"
if [ -f "harness-oidn/src/bin/$bin.rs" ]; then pkg=harness-oidn; else pkg=harness; fi
. ./tools/build.sh
build_bin "$pkg" "$bin" || { echo "ERROR: build failed" >&2; exit 2; }
exec "./$pkg/target/release/$bin" "$@"
