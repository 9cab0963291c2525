#!/bin/bash
# replay.sh FILE: re-run one recorded schedule, printing every step.
HERE=$(cd "$(dirname "$0")" && pwd)
P=$(sed -n 's/.*"Property": "\(C[0-9]*\)".*/\1/p' "$1" | head -1)
F=$(readlink -f "$1")
case "$P" in
  C26|C31) G=ext ;;
  C27) G=disc ;;
  C28) G=quic ;;
  C32) exec node "$HERE/mc/js/main.js" replay "$F" "${VERIF_REPO:-/repo}/extension/jsclient/arpc.js" ;;
  *) G=core ;;
esac
T=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
bash "$HERE/mc/build.sh" "$T" $G || exit 2
"$T/mcbin" replay "$F"
