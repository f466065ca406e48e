#!/bin/bash
# dev helper: build govc into /tmp/b and verify functions: b.sh PROP FUNC... 
. /opt/vp/env.sh; export GOSUMDB=off
(cd /verif/tool && GOFLAGS=-mod=mod /opt/veriftools/go1.26.10/bin/go build -o /tmp/b/govc .) || exit 2
P=$1; shift
for f in "$@"; do case $f in *.*) n=$f;; *) n="(*oracle.Oracle).$f";; esac; /tmp/b/govc verify -repo ${VERIF_REPO:-/repo} -prop "$P" -func "$n" $V; done
