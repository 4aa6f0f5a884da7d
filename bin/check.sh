#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# exit 0: the property held on everything explored; 1: VIOLATION line printed; 3: no answer.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
export LV_ROOT="$root"
if [ "$id" = P27 ]; then
  "$root/bin/build.sh" dev release || exit 3
  export LV_UNCHECKED="$root/harness/target/release/lv"
elif [ "$id" = P31 ]; then
  # both builds of the library, one after the other; the evidence describes the second run
  "$root/bin/build.sh" dev release || exit 3
  "$root/harness/target/debug/lv" check "$id" --tier "$tier" --seed "$seed" || exit $?
  rm -f "$root/evidence/$id.json"
  exec "$root/harness/target/release/lv" check "$id" --tier "$tier" --seed "$seed"
else
  "$root/bin/build.sh" dev || exit 3
fi
rm -f "$root/evidence/$id.json"
exec "$root/harness/target/debug/lv" check "$id" --tier "$tier" --seed "$seed"
