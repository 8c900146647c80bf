#!/bin/bash
# seedtests.sh [id...]: builds every planted change in /repo and runs the repository's tests; prints those that do not
# apply, do not build or are caught by the tests. /repo is restored afterwards.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
out=$(mktemp /tmp/seedtests.XXXXXX)
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; rm -f -- "$out"' EXIT
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  if ! bash /opt/vp/build.sh > "$out" 2>&1; then echo "$id: does not build"
  else
    l=$(bash /opt/vp/test.sh "$out.json" 2>&1 | tail -1)
    [ "$l" = "10 passed, 0 failed" ] || echo "$id: $l"
    rm -f -- "$out.json"
  fi
  git -C /repo checkout -q -- .
done
echo "seedtests: $# tried"
