#!/bin/bash
# Decides one property of /repo; builds the checker first when it is missing
# or older than its source.
# usage: check.sh PROPERTY
set -u
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
if [ ! -x bin/chk ] || [ -n "$(find checker -newer bin/chk -name '*.go' -print -quit)" ]; then
  bash setup.sh || { echo "cannot build the checker"; exit 2; }
fi
exec bin/chk -repo /repo -out "$PWD" -prop "$1"
