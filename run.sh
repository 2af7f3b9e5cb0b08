#!/bin/bash
# run.sh <property> <quick|thorough> : static analysis of /repo's current tree for one property.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
bash "$here/setup.sh" >/dev/null || { echo "checker does not build"; exit 2; }
cd "$here" && exec "$here/bin/checker" "$1" "$2"
