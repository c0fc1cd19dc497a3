#!/bin/bash
# check.sh ID [quick|thorough]   build the harness crate of property ID from /repo's working tree, then run its check
# check.sh build                 build all harness crates
# check.sh replay FILE           run one replay file
set -u
home="$(cd "$(dirname "$0")" && pwd)"
export VERIF_HOME="$home" CARGO_TARGET_DIR="$home/.build" CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif_hooks"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
crate() {
  case "$1" in
    B06|D*) echo hd ;;
    B*|C*) echo hb ;;
    T*|S*) echo ht ;;
    *) echo "no property $1" >&2; exit 2 ;;
  esac
}
build() {
  local out
  if ! out="$(cd "$home/harness/$1" && cargo build --release --offline --quiet 2>&1)"; then
    printf '%s\n' "$out" | grep -A12 "^error" | head -80 >&2
    echo "harness $1 does not build" >&2
    exit 2
  fi
}
case "${1:-}" in
  build) for c in hb hd ht; do build $c; done; exit 0 ;;
  replay)
    id="$(sed -n 's/.*"property": "\(.*\)",.*/\1/p' "$2" | head -1)"
    c="$(crate "$id")" || exit 2
    build "$c"
    exec "$home/.build/release/$c" replay "$2" ;;
  "") echo "usage: check.sh ID [quick|thorough] | build | replay FILE" >&2; exit 2 ;;
esac
c="$(crate "$1")" || exit 2
case "${2:-}" in quick|thorough) export VERIF_TIER="$2" ;; esac
build "$c"
"$home/.build/release/$c" check "$1"
