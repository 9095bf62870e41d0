#!/bin/bash
# warms the build cache so that the checks start fast; every check rebuilds from /repo anyway
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
. "$VERIF_ROOT/env.sh"
TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
cd "$VERIF_ROOT/harness" || exit 2
cp go.mod go.sum "$TMP/"
for d in cmd/*; do
  flags=""; [ -f "$d/RACE" ] && flags="-race"
  go build $flags -modfile "$TMP/go.mod" -o "$TMP/check" "./$d" || exit 2
done
exit 0
