#!/bin/bash
# run1.sh PROP REGEXP: run selected harnesses of a property (development helper)
. /opt/vp/env.sh; cd /verif/engine && go build -o /tmp/vp ./cmd/vp || exit 2
/tmp/vp -property "$1" -harness "$2" -v -noevidence "${@:3}" 2>&1 | cut -c1-300
