# build_bin PKG BIN... : builds binaries of a harness package against /repo's current tree, offline.
# cargo notices changes by modification time; in case a copy of the tree kept old times, the content
# of /repo's sources is hashed and the crate rebuilt when the hash differs from the last build.
build_bin() {
  local pkg="$1"; shift
  local args=() b
  for b in "$@"; do args+=(--bin "$b"); done
  ( cd "$pkg" || exit 1
    mkdir -p target
    exec 9>target/.verif-lock; flock 9
    h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; ) | sha256sum | cut -d' ' -f1)
    if [ "$(cat target/.verif-hash 2>/dev/null)" != "$h" ]; then
      rm -rf "$PWD"/target/release/.fingerprint/solstrale-*
    fi
    out=$(CARGO_NET_OFFLINE=true RUSTFLAGS="" CARGO_TERM_COLOR=never cargo build --release --offline --locked "${args[@]}" 2>&1)
    rc=$?
    if [ $rc -ne 0 ]; then printf '%s\n' "$out" | grep -A12 '^error' | head -60 >&2; exit 1; fi
    echo "$h" > target/.verif-hash )
}
