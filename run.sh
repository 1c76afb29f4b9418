#!/bin/bash
# run.sh CHECK: builds the monitors with /repo's working tree and runs one check.
# run.sh --replay FILE: runs the case of a replay file again.
cd "$(dirname "$0")" || exit 2
if ! ./build.sh 2>build.log; then
  grep -A12 '^error' build.log | head -60 >&2
  echo "INCONCLUSIVE: the monitors do not build with this tree" >&2
  exit 4
fi
rm -f "$PWD/build.log"
M="${CARGO_TARGET_DIR:-$PWD/target}/release/mon"
if [ "$1" = --replay ]; then exec "$M" replay "$2"; fi
# In the thorough tier these two also run under sanitizers.
if [ "$VERIF_TIER" = thorough ] && { [ "$1" = C14 ] || [ "$1" = C09 ]; }; then
  export MON_DEADLINE_S="${MON_DEADLINE_S:-400}"
  "$M" check "$1" || exit
  exec ./san.sh "$1"
fi
exec "$M" check "$1"
