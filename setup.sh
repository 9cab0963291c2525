#!/bin/bash
# Warms the Go build cache; the checks build everything themselves.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
bash "$HERE/mc/build.sh" "$T/a" core || exit 1
if [ -d "$HERE/mc/scenx" ]; then bash "$HERE/mc/build.sh" "$T/b" ext || exit 1; fi
