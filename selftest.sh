#!/bin/bash
# Determinism self-test: the event logs, choices and step counts of many runs, repeated in other
# processes under other environments and machine load, must be identical.
# usage: selftest.sh [runs] [seeds]
set -u
here=$(cd "$(dirname "$0")" && pwd)
n=${1:-300} seeds=${2:-4}
"$here/check.sh" build || exit 3
bin=$here/target/release/dst
out=$(mktemp -d /tmp/dst-selftest.XXXXXX)
trap 'rm -rf "$out"' EXIT
export VERIF_ROOT=$here
bad=0
for id in $("$bin" list); do
  for s in $(seq 1 "$seeds"); do
    ( VERIF_SEED=$s TZ=UTC "$bin" hashes "$id" "$n" >"$out/$id.$s.a" 2>&1 ) &
    ( cd / && VERIF_SEED=$s TZ=Asia/Tokyo LANG=C X=$(head -c 3000 /dev/zero | tr '\0' x) "$bin" hashes "$id" "$n" >"$out/$id.$s.b" 2>&1 ) &
  done
  wait
  for s in $(seq 1 "$seeds"); do
    if cmp -s "$out/$id.$s.a" "$out/$id.$s.b" && [ "$(wc -l <"$out/$id.$s.a")" = "$n" ]; then :; else
      bad=1
      echo "DIVERGED $id seed $s"
      diff "$out/$id.$s.a" "$out/$id.$s.b" | head -4
    fi
  done
  echo "$id: $((seeds * 2)) processes x $n runs compared"
done
exit $bad
