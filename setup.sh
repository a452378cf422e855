#!/bin/bash
# Builds the verifier and warms the build cache; every check repeats this when needed.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
cd "$here/engine" && go build -o "$here/.bin/vcgo" .
