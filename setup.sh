#!/bin/bash
# Builds the harness, and the tool once to warm the caches.
. "$(dirname "$0")/env.sh"
prepare || { echo "cannot build" >&2; exit 2; }
