#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOSUMDB=off
mkdir -p "$here/bin" "$here/evidence" "$here/replay"
cd "$here/engine" && go build -o "$here/bin/engine" . && echo built
