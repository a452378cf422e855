#!/bin/bash
# check.sh PROPERTY TIER: decides one property on the current tree of /repo.
# Builds the verifier from source (/verif/engine) when it is not built yet.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
bin="$here/.bin/vcgo"
if ! (cd "$here/engine" && go build -o "$bin" .); then
  echo "cannot build the verifier" >&2
  exit 2
fi
export VC_DIR="$here"
exec "$bin" check -prop "$1" -tier "$2"
