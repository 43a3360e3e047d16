#!/bin/bash
# build.sh DIR [race] [native]: builds the checker from /repo's working tree into DIR.
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
W=$1
shift
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
RT=verif.local/rt
M=github.com/perlin-network/noise
Z=$M/zshim
mkdir -p "$W"

mod() { # mod DIR RTDIR: a copy of the library's sources as a module
	mkdir -p "$1"
	{
		echo "module $M"
		echo "go 1.21"
		sed -n '/^require/,$p' "$R/go.mod"
		echo "require $RT v0.0.0"
		echo "replace $RT => $2"
	} > "$1/go.mod"
	cp "$R/go.sum" "$1/go.sum"
	for d in . kademlia gossip; do
		mkdir -p "$1/$d"
		for f in "$R/$d"/*.go; do
			case $f in *_test.go) ;; *) cp "$f" "$1/$d/" ;; esac
		done
	done
	mkdir -p "$1/zmc"
	cp "$V"/harness/*.go "$1/zmc/"
}

SHIMS="sync=$RT/vsync,sync/atomic=$RT/vatomic,go.uber.org/atomic=$RT/vuatomic,time=$RT/vtime,context=$RT/vcontext,net=$RT/vnet,math/rand=$RT/vrand,math/rand/v2=$RT/vrand,crypto/rand=$RT/vcrand,runtime=$RT/vruntime,github.com/oasislabs/ed25519=$Z/voasis,crypto/ed25519=$Z/ved25519,github.com/oasislabs/ed25519/extra/x25519=$Z/vx25519,github.com/VictoriaMetrics/fastcache=$Z/vfastcache"

mod "$W/src" "$V/rt"
mkdir -p "$W/src/zshim"
cp -r "$V"/rt3/* "$W/src/zshim/"
(cd "$V/tools/instr" && go build -o "$W/instr" .)
"$W/instr" -mod "$W/src" -out "$W/out" -shims "$SHIMS" -strip "$M" "$M" "$M/kademlia" "$M/gossip" "$M/zmc"
cp "$W/src/go.mod" "$W/src/go.sum" "$W/out/"
cp -r "$W/src/zshim" "$W/out/"
(cd "$W/out" && go build -o "$W/mc" ./zmc)
for a in "$@"; do
	case $a in
	race)
		# The runtime's own accesses are hidden from the race detector: its packages are built without instrumentation
		# and never inlined, and what is instantiated elsewhere (generics) is marked.
		mkdir -p "$W/outrace" "$W/rtrace"
		cp -r "$W/out/." "$W/outrace/"
		cp -r "$V/rt/." "$W/rtrace/"
		find "$W/rtrace" "$W/outrace/zshim" -name '*.go' -exec sed -i 's/^func /\/\/go:norace\nfunc /' {} +
		sed -i "s|$RT => .*|$RT => $W/rtrace|" "$W/outrace/go.mod"
		nr=()
		for p in vsched vsync vatomic vuatomic vtime vcontext vnet vrand vcrand vruntime memo; do nr+=("-gcflags=$RT/$p=-race=false -l"); done
		for p in voasis ved25519 vx25519 vfastcache; do nr+=("-gcflags=$Z/$p=-race=false -l"); done
		(cd "$W/outrace" && GOEXPERIMENT=nosizespecializedmalloc go build -race "${nr[@]}" -o "$W/mcrace" ./zmc)
		;;
	native)
		mod "$W/nat" "$V/rtnative"
		(cd "$W/nat" && go build -o "$W/native" ./zmc)
		;;
	esac
done
