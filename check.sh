#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the checker from /repo's working
# tree in a scratch directory, explore the property, write its evidence.
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
case "$PROP" in
  C26|C31) GROUP=ext ;;
  C27) GROUP=disc ;;
  C28) GROUP=quic ;;
  *) GROUP=core ;;
esac
case "$TIER" in
  thorough) BUDGET=${VERIF_BUDGET:-3000} ;;
  *) BUDGET=${VERIF_BUDGET:-240} ;;
esac
if [ "$PROP" = C32 ]; then # the browser client: no Go involved
  exec node "$HERE/mc/js/main.js" check "$PROP" "$TIER" "${VERIF_SEED:-1}" "$HERE/evidence/$PROP.json" \
    "$HERE/known_findings.json" "$HERE/evidence/replays" "$BUDGET" "${VERIF_REPO:-/repo}/extension/jsclient/arpc.js"
fi
T=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
if ! bash "$HERE/mc/build.sh" "$T" "$GROUP" >"$T/build.log" 2>&1; then
  tail -50 "$T/build.log" >&2
  echo "build of the checker failed" >&2
  exit 2
fi
cd "$T"
"$T/mcbin" check -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -evidence "$HERE/evidence/$PROP.json" \
  -known "$HERE/known_findings.json" -replays "$HERE/evidence/replays" -budget "$BUDGET"
