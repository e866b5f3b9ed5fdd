#!/bin/bash
# usage: replay.sh FILE     re-runs a replay file against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/sim/simctl.sh" replay "$@"
