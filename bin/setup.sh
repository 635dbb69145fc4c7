#!/bin/bash
# Builds the simulator once, so that a broken toolchain shows up before the checks run.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$here/target/build" "$here/evidence"
exec "$here/bin/build.sh" "$here/target/build"
