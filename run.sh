#!/bin/bash
# usage: run.sh <property id>     builds that check against /repo's working tree and runs it
# (VERIF_SEED, VERIF_TIER select the seed and the tier; VERIF_ONLY=stage:index replays one case)
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
scratch=$(mktemp -d "${TMPDIR:-/tmp}/strip-verif-XXXXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH=$scratch
cd "$here/harness" || exit 3
race=
[ -e "cmd/$id/RACE" ] && race=-race
overlay=
if [ -e "cmd/$id/YIELD" ]; then
	# instrumented copies of the packages named there: a yield or sleep may happen before every statement
	repo=$(go list -m -f '{{.Dir}}' github.com/wujiu2020/strip)
	mkdir "$scratch/overlay"
	if go run ./yieldinst "$repo" "$scratch/overlay" $(cat "cmd/$id/YIELD") >"$scratch/yield.log" 2>&1; then
		overlay="-overlay=$scratch/overlay/overlay.json"
		go build $race $overlay -o "$scratch/check" "./cmd/$id" >"$scratch/yield.log" 2>&1 || overlay=
	fi
	[ -n "$overlay" ] || { echo "NOTE: built without instrumented copies:"; head -5 "$scratch/yield.log"; }
fi
if ! go build $race $overlay -o "$scratch/check" "./cmd/$id" 2>"$scratch/build.log"; then
	echo "BUILD FAILED property=$id"
	cat "$scratch/build.log"
	exit 3
fi
"$scratch/check"
rc=$?
exit $rc
