#!/bin/bash
# Builds the checker.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin && cd checker && go build -o ../bin/chk .
