#!/bin/bash
# developer helper: build and run the generator
set -e
cd /verif/govc
(export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod; go build -o /tmp/govc . )
. /opt/vp/env.sh
cd ${REPO:-/repo}
exec /tmp/govc -repo ${REPO:-/repo} "$@"
