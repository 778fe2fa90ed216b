#!/bin/bash
# check.sh <property>: rebuilds the simulator from /repo's working tree and searches.
# Exit 0: held; 1: VIOLATION; 2: the check itself failed (build or harness).
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
cd "$here" || exit 2
mkdir -p evidence replays
if ! bash sim/build.sh >"/tmp/sim-build.$$.log" 2>&1; then
  cat "/tmp/sim-build.$$.log"; rm -f "/tmp/sim-build.$$.log"
  echo "build failed"
  exit 2
fi
rm -f "/tmp/sim-build.$$.log"
exec sim/target/debug/sim check "$1"
