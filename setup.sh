#!/bin/sh
# Warms the Go build cache for the checks; every check also works without it.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on
mkdir -p evidence .build
cd harness && go build -o /dev/null ./mc && for d in cmd/*; do go build -o /dev/null "./$d" || exit 1; done
