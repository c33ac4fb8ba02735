#!/bin/bash
# Builds the simulated libc, the simulator and the silverfox binary.
set -e
cd "$(dirname "$0")"
exec bash build.sh
