#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo, then run the check.
here=$(cd "$(dirname "$0")" && pwd)
log=$(bash "$here/build.sh" 2>&1) || { echo "$log"; echo "the simulator does not build"; exit 2; }
export VERIF_DIR=$here
cd "$here" && exec "$here/build/sim" check "$1" "${2:-${VERIF_TIER:-quick}}"
