#!/bin/bash
# build the engine and run it on the given properties (development helper)
. /opt/vp/env.sh; cd /verif/engine && go build -o /tmp/vp ./cmd/vp || exit 2
for p in "$@"; do /tmp/vp -property $p -v -noevidence 2>&1 | cut -c1-260; done
