#!/bin/bash
# check.sh <property>: decides one property for /repo's working tree.
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
export VERIF_ROOT="$PWD"
exec "$PWD/.build/sim/release/sim" check "$1"
