#!/bin/bash
# check.sh <property> [quick|thorough]: builds the verifier and decides one property on /repo's working tree
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
cd "$(dirname "$0")" || exit 2
V=$PWD
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
(cd "$V/govc" && GOFLAGS=-mod=vendor go build -o "$S/govc" .) || exit 2
export TMPDIR=$S
"$S/govc" -repo /repo -spec "$V/spec" -evidence "$V/evidence" -known "$V/known-findings.json" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
