#!/bin/bash
# build.sh OUTDIR GROUP: build the model-checking binary OUTDIR/mcbin from
# /repo's working tree (GROUP: core, or ext for packages that need
# third-party modules, or disc for the registry discoveries, or quic, or self for the self-test).
set -e
OUT=$1
GROUP=${2:-core}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS= GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
M=$OUT/m
MOD=github.com/lesismal/arpc
mkdir -p "$M"
(cd "$HERE" && go build -o "$OUT/rewrite" ./rewrite)
# sources of the working tree, without tests and examples
(cd "$REPO" && find . -name '*.go' -not -name '*_test.go' -not -path './examples/*' -not -path './.git/*' -print0 | tar --null -cf - -T - ) | tar -xf - -C "$M"
mkdir -p "$M/zmc"
cp -r "$HERE/mcrt" "$M/zmc/mcrt"
cp -r "$HERE/scen" "$M/zmc/scen"
rm -f "$M"/zmc/mcrt/*_test.go
gover=$(sed -n 's/^go \([0-9.]*\).*/\1/p' "$REPO/go.mod" | head -1)
L122=""
minor=$(echo "$gover" | cut -d. -f2)
lang=1.21
if [ -n "$minor" ] && [ "$minor" -ge 22 ]; then L122="-loop122"; lang=1.22; fi
if [ "$GROUP" = ext ]; then
  cp -r "$HERE/scenx" "$M/zmc/scenx"
  cp /opt/vp/arpc.mod "$M/go.mod"; cp /opt/vp/arpc.sum "$M/go.sum"
  SC=scenx
else
  printf 'module %s\n\ngo %s\n' "$MOD" "$lang" > "$M/go.mod"
  SC=scen
fi
if [ "$GROUP" = disc ]; then
  # the registries' client libraries are replaced by in-memory stand-ins
  mkdir -p "$M/zmc/env"
  cp -r "$HERE/env/redis" "$HERE/env/clientv3" "$HERE/env/concurrency" "$M/zmc/env"
  cp -r "$HERE/scend" "$M/zmc/scend"
  sed 's/^package scenx/package scend/' "$HERE/scenx/common.go" > "$M/zmc/scend/common.go"
  find "$M/extension/micro" -name '*.go' -print0 | xargs -0 sed -i \
    -e "s#\"github.com/go-redis/redis/v8\"#\"$MOD/zmc/env/redis\"#" \
    -e "s#\"go.etcd.io/etcd/client/v3/concurrency\"#\"$MOD/zmc/env/concurrency\"#" \
    -e "s#\"go.etcd.io/etcd/client/v3\"#\"$MOD/zmc/env/clientv3\"#" \
    -e "s#\"go.etcd.io/etcd/api/v3/mvccpb\"#\"$MOD/zmc/env/clientv3\"#"
  SC=scend
fi
if [ "$GROUP" = quic ]; then
  mkdir -p "$M/zmc/env"
  cp -r "$HERE/env/quic" "$M/zmc/env"
  cp -r "$HERE/scenq" "$M/zmc/scenq"
  sed 's/^package scenx/package scenq/' "$HERE/scenx/common.go" > "$M/zmc/scenq/common.go"
  find "$M/extension/protocol/quic" -name '*.go' -print0 | xargs -0 sed -i \
    -e "s#\"github.com/quic-go/quic-go\"#\"$MOD/zmc/env/quic\"#"
  SC=scenq
fi
if [ "$GROUP" = self ]; then
  cp -r "$HERE/self" "$M/zmc/self"
  SC=self
fi
mkdir -p "$M/zmc/cmd"
sed -e "s#MCRTPATH#$MOD/zmc/mcrt#" -e "s#SCENPATH#$MOD/zmc/$SC#" "$HERE/cmd/main.go" > "$M/zmc/cmd/main.go"
cd "$M"
"$OUT/rewrite" -root "$M" -mcrt "$MOD/zmc/mcrt" -keep "$MOD/zmc/cmd" -nomem "$MOD/zmc/scen,$MOD/zmc/scenx,$MOD/zmc/scend,$MOD/zmc/scenq,$MOD/zmc/env/quic,$MOD/zmc/env/redis,$MOD/zmc/env/clientv3,$MOD/zmc/env/concurrency" $L122 -pkgs "$MOD/zmc/cmd"
if [ "$GROUP" = ext ] && [ -z "$L122" ]; then
  # old loop-variable semantics although the module file says go 1.22
  grep -rlE '^package ' --include=*.go "$M" | while read -r f; do
    case "$f" in */zmc/mcrt/*|*/zmc/cmd/*) ;; *) sed -i '1i //go:build go1.21\n' "$f";; esac
  done
fi
go build -o "$OUT/mcbin" ./zmc/cmd
