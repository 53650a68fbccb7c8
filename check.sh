#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's current tree.
H=$(cd "$(dirname "$0")" && pwd)
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
. "$H/env.sh"
mkdir -p "$H/build"
bash "$H/setup.sh" >/dev/null 2>"$H/build/setup.log" || { echo "engine does not build"; cat "$H/build/setup.log"; exit 2; }
exec "$H/build/vxcheck" -home "$H" -repo "${VERIF_REPO:-/repo}" -tier "$tier" "$id"
