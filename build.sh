#!/bin/bash
# Builds the simulator from /repo's working tree into $OUT (default /verif/build).
set -e
cd "$(dirname "$0")"
VERIF=$PWD
OUT=${OUT:-$VERIF/build}
REPO=${REPO:-/repo}
GO=/opt/veriftools/go1.27.3/bin/go
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB=* GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
unset GOROOT GODEBUG GOGC GOMAXPROCS
mkdir -p "$OUT"
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
GR=$($GO env GOROOT)
(cd tools/mkoverlay && $GO build -o "$OUT/mkoverlay" .)
"$OUT/mkoverlay" -goroot "$GR" -repo "$REPO" -out "$OUT/overlay"
# quic-go on simulated packets: the one change is where its socket comes from
Q=$GOMODCACHE/github.com/quic-go/quic-go@v0.48.2
if [ ! -e "$OUT/quic-go/done" ]; then
  mkdir -p "$OUT/quic-go"
  (cd "$Q" && find . -name '*.go' ! -name '*_test.go' ! -path './http3/*' ! -path './integrationtests/*' ! -path './interop/*' \
    ! -path './example/*' ! -path './fuzzing/*' ! -path './testutils/*' ! -path './metrics/*' ! -path './internal/mocks/*' ! -path './internal/testdata/*' ! -path './qlog/*' \
    ! -name tools.go ! -name mockgen.go -print0 | tar c --null -T -) | tar x -C "$OUT/quic-go"
  chmod -R u+w "$OUT/quic-go"
  sed -i 's/net\.ListenUDP(\(.*\))$/VerifListenUDP(\1)/; s/^func listenUDP(addr string) (\*net\.UDPConn, error)/func listenUDP(addr string) (net.PacketConn, error)/' "$OUT/quic-go/client.go" "$OUT/quic-go/server.go"
  cp sim/quic_go.mod.txt "$OUT/quic-go/go.mod"
  # timers fire a little late, as real ones do: some of its loops wait for the clock to pass their deadline
  sed -i 's/t.t.Reset(time.Until(deadline))/t.t.Reset(time.Until(deadline) + time.Microsecond)/' "$OUT/quic-go/internal/utils/timer.go"
  touch "$OUT/quic-go/done"
fi
cp sim/quic_hook.go.txt "$OUT/quic-go/verif_hook.go"
sed "s#=> /repo\$#=> $REPO#; s#=> ../build/quic-go#=> $OUT/quic-go#" sim/go.mod > "$OUT/go.mod"; cp sim/go.sum "$OUT/go.sum"
MODFILE=-modfile=$OUT/go.mod
(cd sim && $GO build $MODFILE -overlay "$OUT/overlay/overlay.json" -o "$OUT/sim" .)
