#!/bin/bash
# setup.sh: warm the build cache (nothing a check needs is kept from it)
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$V/engine" && go build -o /dev/null ./cmd/vp || exit 1
cd "$V/harness" && go build ./... || exit 1
cd "$V/harness" && go build -race ./... || true
exit 0
