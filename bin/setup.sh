#!/bin/bash
# Builds the driver from /repo's current tree and parses the specifications.
set -e
cd "$(dirname "$0")/.."
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
out=$(mktemp -d /tmp/verif-XXXXXX)
trap 'rm -rf "$out"' EXIT
(cd harness && go build -tags verif -o "$out/drv" .)
echo "driver builds"
