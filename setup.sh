#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. This only shows that it can be built.
set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d)
cp -r "$(dirname "$0")/harness" "$d/h"
cd "$d/h" && go build -o "$d/bin" .
cd / && rm -rf "$d"
echo ok
