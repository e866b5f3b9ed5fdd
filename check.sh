#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the driver and the simulation of /repo's working tree, then decides
# one property. Exit 0: held; 1: VIOLATION printed; 3: no verdict.
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/sim/simctl.sh" check "$@"
