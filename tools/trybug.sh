#!/bin/bash
# usage: trybug.sh BUG CHECK...   runs the checks against a scratch copy of /repo with the bug applied
B=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/trybug-XXXXXX)
git clone -q /repo "$W/repo" && git -C "$W/repo" apply "$V/seeded/$B/patch.diff" || { echo "$B: does not apply"; rm -rf "$W"; exit 2; }
cp -a "$V/." "$W/verif"; rm -rf "$W/verif/.git" "$W/verif/seeded"
for c in "$@"; do
  S=$(date +%s)
  (cd "$W/verif" && DST_REPO_SRC="$W/repo/src" timeout 900 ./run.sh "$c" > "$W/out" 2>&1); RC=$?
  echo "== $B vs $c: rc=$RC $(( $(date +%s) - S ))s $(grep -E 'VIOLATION|^  ' "$W/out" | head -3 | cut -c1-220 | tr '\n' ' ')"
done
rm -rf "$W"
