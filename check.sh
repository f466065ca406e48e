#!/bin/bash
# bash check.sh PROPERTY: verifies every function the property depends on from /repo's current sources.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export GOSUMDB=off
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
(cd "$here/tool" && GOFLAGS=-mod=mod /opt/veriftools/go1.26.10/bin/go build -o "$bin/govc" .) || exit 2
"$bin/govc" check -repo "${VERIF_REPO:-/repo}" -contracts "$here/contracts" -prop "$1"
