#!/bin/bash
# run.sh ID [quick|thorough]: decide one property. run.sh replay FILE: run a recorded case again.
. "$(dirname "$0")/env.sh"
prepare || { echo "cannot build" >&2; exit 2; }
if [ "$1" = replay ]; then
  exec "$BUILD/harness/release/vh" replay "$2"
fi
exec "$BUILD/harness/release/vh" check "$1" "${2:-${VERIF_TIER:-quick}}"
