#!/bin/bash
# usage: run.sh C01 [flags]   -- builds the check from /repo's working tree and runs it
ID=$1; shift
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
. "$VERIF_ROOT/env.sh"
TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
mkdir -p "$TMP/tmp"
export VERIF_TMP=$TMP
cd "$VERIF_ROOT/harness" || exit 2
cp go.mod go.sum "$TMP/"
dir=$(echo "$ID" | tr 'A-Z' 'a-z')
flags=""
[ -f "cmd/$dir/RACE" ] && flags="-race"
if ! go build $flags -modfile "$TMP/go.mod" -o "$TMP/check" "./cmd/$dir" >"$TMP/build.log" 2>&1; then
  echo "BUILD FAILED"; grep -v "module lookup disabled" "$TMP/build.log" | tail -30
  exit 2
fi
if [ -f "cmd/$dir/CLI" ]; then
  cp /repo/go.mod "$TMP/repo.mod"; cp /repo/go.sum "$TMP/repo.sum"
  if ! (cd /repo && go build -modfile "$TMP/repo.mod" -o "$TMP/gopf" .) >"$TMP/build.log" 2>&1; then
    echo "BUILD FAILED"; tail -30 "$TMP/build.log"; exit 2
  fi
fi
TMPDIR="$TMP/tmp" "$TMP/check" "$@"
rc=$?
exit $rc
