#!/bin/bash
# against.sh <dir with the library> <scale> <property>...
# runs checks against another copy of the library (for sensitivity tests only)
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
LIB="$1"; SCALE="$2"; shift 2
W="${AGAINST_DIR:-/tmp/against}"
mkdir -p "$W/sim" "$W/root/evidence"
rm -rf "$W/edge"; cp -r "$HERE/edge" "$W/"
cp -r "$HERE/sim/src" "$HERE/sim/Cargo.lock" "$W/sim/" && sed "s#path = \"/repo\"#path = \"$LIB\"#" "$HERE/sim/Cargo.toml" >"$W/sim/Cargo.toml"
[ -f "$W/root/known-findings.txt" ] || cp "$HERE/known-findings.txt" "$W/root/"
. /opt/vp/env.sh
export SIM_SOURCES="$LIB/src" CARGO_TARGET_DIR="$W/target" VERIF_ROOT="$W/root" SIM_SCALE="$SCALE"
touch "$LIB/src/lib.rs"
build() { (cd "$W/sim" && cargo build --offline -q --release "$@" 2>&1 | grep -E "^error" -A8); }
others="$(echo " $* " | sed 's/ C17 / /; s/ C09 / /' | tr -d ' ')"
[ -n "$others" ] && build --bin sim && exit 2
case " $* " in *" C09 "*) RUSTC_WRAPPER="$HERE/tools/rustc-edges.sh" CARGO_TARGET_DIR="$W/target/edges" build --bin sim --features edges && exit 2 ;; esac
case " $* " in *" C17 "*) build --bin simstore --features store && exit 2 ;; esac
for p in "$@"; do
  case $p in C17) b=release/simstore;; C09) b=edges/release/sim;; *) b=release/sim;; esac
  timeout 600 "$W/target/$b" check "$p" quick >"$W/$p.log" 2>&1; rc=$?
  c="$(sed -n 's/^class=//p' "$W/$p.log" | head -1)"
  echo "$p rc=$rc $c $(grep -m1 '^what:' "$W/$p.log" | cut -c1-160)"
done
