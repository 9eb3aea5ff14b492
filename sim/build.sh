#!/bin/bash
# build.sh OUT: generates the simulated copy of /repo's working tree below OUT
# (a directory the caller owns) and builds the harness as OUT/harness.bin.
# Extra go build tags come from SIM_TAGS.
set -e
export HOME=/root PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${SIM_REPO:-/repo}
mkdir -p "$out/mod"
(cd "$here/simgen" && go build -o "$out/simgen.bin" .)
cp -r "$here/simrt" "$here/shim" "$here/harness" "$out/mod/"
{ echo "module btrsim"; sed -e '/^module /d' "$repo/go.mod"; } >"$out/mod/go.mod"
cp "$repo/go.sum" "$out/mod/go.sum"
# simgen runs "go list" in the repository, which must not touch go.mod there.
cp "$repo/go.mod" "$out/repo.mod"; cp "$repo/go.sum" "$out/repo.sum"
(cd "$out" && GOFLAGS="-mod=mod -buildvcs=false -modfile=$out/repo.mod" ./simgen.bin -out "$out/mod" -repo "$repo" -slots "${SIM_SLOTS:-4}")
cd "$out/mod"
go build -tags "verif $SIM_TAGS" -o "$out/harness.bin" ./harness
