#!/bin/bash
# usage: replay.sh <replay file>: re-runs one recorded failure against /repo's current tree
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export LV_ROOT="$root" LV_UNCHECKED="$root/harness/target/release/lv"
"$root/bin/build.sh" dev release || exit 3
if grep -q '"property": "P31"' "$1"; then
  "$root/harness/target/release/lv" replay "$1" || exit $?
fi
exec "$root/harness/target/debug/lv" replay "$1"
