#!/bin/bash
# replay.sh FILE [-v]: reproduces a recorded violation exactly.
root=$(cd "$(dirname "$0")" && pwd)
dir=$("$root/build.sh") || exit 2
f=$1; shift
exec "$dir/simcheck" replay "$f" "$@"
