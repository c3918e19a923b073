#!/bin/bash
# Build the harness against /repo's working tree, then run one check.
#   run.sh check ID        quick or thorough by $VERIF_TIER, seeded by $VERIF_SEED
#   run.sh replay FILE     re-run a recorded failure
#   run.sh build           build every flavour of the harness
# A flavour is the set of the crate's features a property is decided with.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export KDLCHECK_HOME="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/harness/target"

flavour_of() {
  case "$1" in
    P04|P05|P19|P20|P21|P22|P24|P26|P27) echo v2 ;;
    *) echo full ;;
  esac
}

build() {
  local log; log="$(mktemp)"
  if ! (cd "$here/harness" && cargo +stable build --release --offline --locked --features "$1") >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the harness ($1) does not build against /repo" >&2
    exit 3
  fi
  rm -f "$log"
  mkdir -p "$CARGO_TARGET_DIR/bin"
  # cargo leaves the flavour built last under this name
  cp -f "$CARGO_TARGET_DIR/release/kdlcheck" "$CARGO_TARGET_DIR/bin/kdlcheck-$1"
}

# The language server of /repo, which P23 talks to.
build_lsp() {
  local log; log="$(mktemp)"
  if ! (cd /repo && CARGO_PROFILE_RELEASE_OPT_LEVEL=1 cargo +stable build --release --offline --locked -p kdl-lsp --target-dir "$CARGO_TARGET_DIR/lsp") >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "kdl-lsp does not build" >&2
    exit 3
  fi
  rm -f "$log"
  export KDLCHECK_LSP="$CARGO_TARGET_DIR/lsp/release/kdl-lsp"
}

run() {
  local fl="$1"; shift
  build "$fl"
  case "${id:-}" in
    P23) build_lsp ;;
    # compares builds with other features
    P24) for f in plain nospan v1 full; do build "$f"; done ;;
  esac
  "$CARGO_TARGET_DIR/bin/kdlcheck-$fl" "$@"
}

case "${1:-}" in
  build)
    for f in full v2 plain nospan v1; do build "$f"; done
    build_lsp ;;
  check)
    id="$2"
    run "$(flavour_of "$2")" run --property "$2" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" ;;
  replay)
    id="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)"
    run "$(flavour_of "$id")" replay "$2" ;;
  *) echo "usage: run.sh check ID | replay FILE | build" >&2; exit 2 ;;
esac
