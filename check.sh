#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on the current tree.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
. /opt/vp/env.sh
B="$(mktemp -d /tmp/vpcheck.XXXXXX)"; trap 'rm -rf "$B"' EXIT
cd "$V/engine" && go build -o "$B/vp" ./cmd/vp || exit 2
cd "$V" && TMPDIR="$B" "$B/vp" -verif "$V" -repo /repo -property "$ID" -tier "$TIER" "${@:3}"
