#!/bin/bash
# Warms the Go build cache for the harness (normal and race builds) so that
# each check only rebuilds what changed in /repo.
set -u
cd "$(dirname "$0")"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOROOT GOWORK
mkdir -p build evidence
cp harness/go.mod build/go.setup.mod && cp harness/go.sum build/go.setup.sum || exit 1
cd harness
go build -modfile=../build/go.setup.mod -o ../build/setup.bin . || exit 1
go build -race -modfile=../build/go.setup.mod -o ../build/setup.bin . || exit 1
rm -f /verif/build/setup.bin /verif/build/go.setup.mod /verif/build/go.setup.sum
echo setup done
