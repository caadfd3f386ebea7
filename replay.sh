#!/bin/bash
# replay.sh FILE: rebuild from /repo and execute a recorded plan exactly.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
export SIM_VERIF_DIR="$here"
exec "$here/sim/target/release/sim" replay "$1"
