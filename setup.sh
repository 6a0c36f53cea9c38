#!/bin/bash
# Builds the framework once, offline, to show that it builds.
set -eu
cd "$(dirname "$0")"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
work=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf -- "$work"' EXIT
cp harness/*.go harness/go.mod harness/go.sum "$work/"
cd "$work"
go build -cover -coverpkg=github.com/bserdar/gojsonpath -o harness .
./harness -list
