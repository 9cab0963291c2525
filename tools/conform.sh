#!/bin/bash
# conform.sh: compares the QUIC stand-in with the real library.
HERE=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
T=$(mktemp -d /tmp/conform.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/real/z" "$T/stub/z" "$T/stub/quic"
cp /opt/vp/arpc.mod "$T/real/go.mod"; cp /opt/vp/arpc.sum "$T/real/go.sum"
cp "$HERE/tools/conform/quic.go.txt" "$T/real/z/main.go"
printf 'module stub\n\ngo 1.21\n' > "$T/stub/go.mod"
cp "$HERE/mc/env/quic/quic.go" "$T/stub/quic/"
sed 's#"github.com/quic-go/quic-go"#"stub/quic"#' "$HERE/tools/conform/quic.go.txt" > "$T/stub/z/main.go"
(cd "$T/real" && GOFLAGS=-mod=mod go run ./z) > "$T/real.out" 2>"$T/real.err"
(cd "$T/stub" && GOFLAGS= go run ./z) > "$T/stub.out" 2>"$T/stub.err"
grep -v 'UDP buffer\|buffer size' "$T/real.err" "$T/stub.err" | head
if diff "$T/real.out" "$T/stub.out"; then echo "the stand-in agrees on $(wc -l < "$T/real.out") behaviours"; else echo "DIFFERENT"; exit 1; fi
