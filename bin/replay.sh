#!/bin/bash
# Replays a violation file against the current tree: replay.sh FILE   (exit 1 when it reproduces)
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
file="$(realpath "$1")"
out="$here/target/build"
mkdir -p "$out"
"$here/bin/build.sh" "$out" || exit 3
exec "$out/sim" replay --mods "$out/mods" --file "$file"
