#!/bin/bash
# builds all check binaries once
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./tools/build.sh
for pkg in harness harness-oidn; do
  [ -d "$pkg/src/bin" ] || continue
  bins=$(cd "$pkg/src/bin" && ls *.rs | sed 's/\.rs$//')
  build_bin "$pkg" $bins || exit 1
done
exit 0
