#!/bin/bash
# catch.sh [bug...]: which of the planted bugs their own property's check reports
HERE="$(cd "$(dirname "$0")/.." && pwd)"
export AGAINST_DIR="${AGAINST_DIR:-/tmp/against}"
L="$AGAINST_DIR/lib"
mkdir -p "$AGAINST_DIR"
[ $# = 0 ] && set -- $(ls "$HERE/seeded")
for b in "$@"; do
  rm -rf "$L"; git clone -q /repo "$L"
  git -C "$L" apply "$HERE/seeded/$b/patch.diff" || { echo "$b APPLY"; continue; }
  p="${PROPS:-$(jq -r .property "$HERE/seeded/$b/meta.json")}"
  "$HERE/tools/against.sh" "$L" "${SCALE:-1}" $p 2>&1 | sed "s/^/$b /"
done
