#!/bin/bash
# Warms the build cache; every check builds what it needs by itself as well.
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/sim/simctl.sh" warm
