#!/bin/bash
# builds the symbolic executor
H=$(cd "$(dirname "$0")" && pwd)
. "$H/env.sh"
mkdir -p "$H/build" "$H/evidence" "$H/replays"
if [ -x "$H/build/vxcheck" ] && [ -z "$(find "$H/engine" -newer "$H/build/vxcheck" -type f | head -1)" ]; then exit 0; fi
cd "$H/engine" && go build -o "$H/build/vxcheck.$$" . && mv "$H/build/vxcheck.$$" "$H/build/vxcheck"
