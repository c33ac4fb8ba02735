#!/bin/bash
# replay.sh <file>: runs the execution of a replay file again.
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
export VERIF_ROOT="$PWD"
exec "$PWD/.build/sim/release/sim" replay "$1"
