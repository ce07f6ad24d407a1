#!/bin/bash
# Warms the build cache; every check builds itself again from /repo's working tree.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
go build -o /dev/null ./... || exit 1
for d in cmd/*/; do
	if [ -e "$d/RACE" ]; then go build -race -o /dev/null "./$d" || exit 1; fi
done
exit 0
