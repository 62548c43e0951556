#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator against /repo's
# current working tree and runs the property's check. Exit 0: held on
# everything explored; 1: VIOLATION line printed; anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
[ "$1" = C21 ] && export SIM_WORK=1
log=$(mktemp)
if ! ./build.sh >"$log" 2>&1; then
    tail -n 60 "$log"
    rm -f "$log"
    echo "build failed" >&2
    exit 3
fi
sim=$(tail -n 1 "$log")
rm -f "$log"
export VERIF_ROOT="$here"
exec "$sim" run "$1" "${2:-quick}"
