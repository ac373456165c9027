#!/bin/bash
# run.sh <property> quick|thorough      build from /repo's working tree and check
# run.sh replay <file>                  run a recorded failure again
# run.sh build                          build only
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$HERE"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$HERE/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence"
# $1: where to, $2: binary, rest: features
build() {
  local t="$1" bin="$2"; shift 2
  mkdir -p "$t"
  (
    flock 9
    export CARGO_TARGET_DIR="$t"
    # cargo goes by modification times; go by contents as well
    local sum stamp="$t/repo-sources.sha256"
    sum="$(cd /repo && { cat Cargo.toml; find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum)"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
      (cd "$HERE/sim" && cargo clean --offline -q --release -p mqtt_packet_3_5) >/dev/null 2>&1
    fi
    if ! (cd "$HERE/sim" && cargo build --offline --locked -q --release --bin "$bin" "$@") >"$t/build-$bin.log" 2>&1; then
      exit 2
    fi
    echo "$sum" >"$stamp"
  ) 9>"$t/.lock"
}
failed() { echo "HARNESS-ERROR: the build failed"; tail -40 "$1"; exit 2; }
plain() { build "$CARGO_TARGET_DIR" sim || failed "$CARGO_TARGET_DIR/build-sim.log"; BIN="$CARGO_TARGET_DIR/release/sim"; }
store() { build "$CARGO_TARGET_DIR" simstore --features store || failed "$CARGO_TARGET_DIR/build-simstore.log"; BIN="$CARGO_TARGET_DIR/release/simstore"; }
# scheduling points at every edge of the library's control flow
edges() {
  if RUSTC_WRAPPER="$HERE/tools/rustc-edges.sh" build "$CARGO_TARGET_DIR/edges" sim --features edges; then
    BIN="$CARGO_TARGET_DIR/edges/release/sim"
  else
    plain
    echo "NOTE: no build with instrumentation, switches at reads and allocations only"
  fi
}
need() { # property -> binary
  case "$1" in C17) store;; C09) edges;; *) plain;; esac
}
case "${1:-}" in
  build) plain; store; edges;;
  replay) P="$(sed -n 's/^property=//p' "$2" | head -1)"; need "$P"; exec "$BIN" replay "$2";;
  selftest) plain; store; edges; exec "$HERE/selftest.sh" ${2:-};;
  C*) need "$1"; exec "$BIN" check "$1" "${2:-quick}";;
  *) echo "usage: run.sh <property> quick|thorough | replay <file> | build | selftest"; exit 2;;
esac
