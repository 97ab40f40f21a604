#!/bin/bash
# Warms the Go build cache; every check builds again from /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
cd "$here/h" && go vet ./vk >/dev/null 2>&1; go build -o /dev/null ./p/...; CGO_ENABLED=1 go build -race -o /dev/null $(cd p && ls -d */race | sed "s,^,./p/,;s,/race$,,") && true
t=$(mktemp -d) && { bash "$here/h/cli/build.sh" "$here" "$t"; CGO_ENABLED=1 bash "$here/h/cli/build.sh" "$here" "$t" -race; rm -rf "$t"; } || true
