#!/bin/bash
# bash check.sh <property id>      build from /repo's working tree, and run the check
# bash check.sh replay <file>      run again the case a replay file names
# VERIF_SEED (default 1), VERIF_TIER (quick or thorough) are taken from the environment.
# Exit 0: held; 1: VIOLATION; anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
unset GOEXPERIMENT GODEBUG GORACE GOMAXPROCS GOGC GOMEMLIMIT

id=${1:?property id}
args=()
if [ "$id" = replay ]; then
	file=$(realpath "${2:?replay file}") || exit 2
	id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	args=(-replay "$file")
else
	args=(-prop "$id" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -evidence "$here/evidence/$id.json")
fi

work=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
# the module files are copied: nothing here may change the committed ones
mkdir -p "$work/src" "$work/cov" "$work/tmp" && cp "$here"/harness/*.go "$here"/harness/go.mod "$here"/harness/go.sum "$work/src/" || exit 2

# What needs concurrency runs with the race detector. Coverage counters
# are left out there: they would order the accesses that are watched.
case $id in
C23) build=(-race) ;;
# (the harness is in the list because without it nothing writes the counters at exit)
*) build=(-cover -coverpkg=github.com/bserdar/gojsonpath,verif/harness) ;;
esac
(cd "$work/src" && go build "${build[@]}" -o "$work/harness" .) >"$work/build.log" 2>&1 || {
	cat "$work/build.log" >&2
	echo "check.sh: the build failed" >&2
	exit 2
}
export GOCOVERDIR=$work/cov TMPDIR=$work/tmp
"$work/harness" "${args[@]}" -replaydir "$here/replay" -findings "$here/KNOWN_FINDINGS" -cov "$(command -v go)"
