#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo, then search.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
export SIM_VERIF_DIR="$here"
exec "$here/sim/target/release/sim" check "$1" "${2:-${VERIF_TIER:-quick}}"
