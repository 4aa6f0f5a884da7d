#!/bin/bash
# Builds the harness against /repo's current working tree. usage: build.sh [dev|release]..
# Serialised by a lock; a content stamp of the library source guards against stale fingerprints.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
h="$root/harness"
export CARGO_TARGET_DIR="$h/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$h/target" || exit 3
exec 9>"$h/target/.lock"
flock 9
stamp="$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)"
for prof in "$@"; do
  st="$h/target/.stamp-$prof"
  if [ "$(cat "$st" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$st"
    (cd "$h" && cargo clean --offline -q -p linfa-linalg --profile "$prof" >/dev/null 2>&1)
  fi
  log="$h/target/.log-$prof"
  if ! (cd "$h" && cargo build --offline -q --locked --profile "$prof" >"$log" 2>&1); then
    echo "build of the harness ($prof) against /repo failed:" >&2
    grep -E "^error" -A8 "$log" | head -60 >&2
    exit 3
  fi
  echo "$stamp" >"$st"
done
