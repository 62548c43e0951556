#!/bin/bash
# replay.sh FILE [--log]: builds the simulator against /repo's current working
# tree and executes a replay file of a check again.
set -u
here=$(cd "$(dirname "$0")" && pwd)
grep -q '"property": *"C21"' "$1" && export SIM_WORK=1
sim=$(bash "$here/build.sh" | tail -n 1)
[ -x "$sim" ] || exit 3
exec "$sim" replay "$@"
