#!/bin/bash
# bash run.sh PROPERTY OUTFILE: looks for an input on which the real code of $VERIF_REPO breaks the property.
# OUTFILE is left non-empty when one is found.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
prop=$1
out=$2
: > "$out"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
case $prop in
C16|C17|C18) files="base block" ;;
*) files="base state" ;;
esac
{
  echo '{"Replace":{'
  sep=
  for f in $files; do
    cp "$here/$f.go.txt" "$tmp/$f.go"
    echo "$sep\"$repo/oracle/zz_verif_${f}_test.go\": \"$tmp/$f.go\""
    sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
cd "$repo" || exit 2
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
timeout 240 go test -c -modfile "$tmp/go.mod" -vet=off -overlay "$tmp/overlay.json" -o "$tmp/t.test" ./oracle || { echo "the search does not build against this tree"; exit 0; }
mkdir "$tmp/run" && cd "$tmp/run" || exit 2
export VERIF_REPLAY_SECONDS=${VERIF_REPLAY_SECONDS:-20}
VERIF_OUT="$out" timeout 200 "$tmp/t.test" -test.failfast -test.timeout 190s -test.run "^TestVerif$prop" 2>&1 | tail -40
exit 0
