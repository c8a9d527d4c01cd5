#!/bin/bash
# build.sh: builds the simulation harness for /repo's current working tree.
# Prints the directory holding the binary.  The result is cached by content
# under /verif/build.
set -e
root=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export CGO_ENABLED=0
mkdir -p "$root/build"
key=$( (cd "$repo" && sha256sum $(ls *.go go.mod go.sum | grep -v '_test\.go$'); cd "$root/sim" && find . -name '*.go' -o -name go.mod | sort | xargs sha256sum) | sha256sum | cut -c1-16)
dir="$root/build/$key"
if [ ! -x "$dir/simcheck" ]; then
  (
    flock 9
    if [ ! -x "$dir/simcheck" ]; then
      work=$(mktemp -d "$root/build/tmp.XXXXXX")
      trap 'rm -rf "$work"' EXIT
      cp -r "$root/sim" "$work/sim"
      rm -rf "$work/sim/golisp"
      (cd "$work/sim" && go build -o "$work/rewrite" ./cmd/rewrite && "$work/rewrite" -repo "$repo" -sim "$work/sim" && go build -o "$work/simcheck" ./harness) >&2
      mkdir -p "$dir"
      mv "$work/simcheck" "$dir/simcheck"
      # keep the cache small
      ls -dt "$root"/build/*/ 2>/dev/null | grep -v /tmp. | tail -n +7 | xargs -r rm -rf
    fi
  ) 9>"$root/build/.lock"
fi
echo "$dir"
