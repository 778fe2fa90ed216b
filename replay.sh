#!/bin/bash
# replay.sh <file>: rebuilds and replays one recorded violation.  Exit 1 if it shows again.
cd "$(dirname "$0")" || exit 2
f="$(realpath "$1")"
bash sim/build.sh >/dev/null 2>&1 || { echo "build failed"; exit 2; }
exec sim/target/debug/sim replay "$f"
