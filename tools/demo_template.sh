#!/bin/bash
# Runs main.go (beside this file) as a program inside the module in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/internal/zzdemo/main.go":"%s/main.go"}}' "$repo" "$here" >"$tmp/o.json"
race=; grep -q "^// race" "$here/main.go" && race=-race && export CGO_ENABLED=1
go build $race -overlay "$tmp/o.json" -o "$tmp/demo" ./internal/zzdemo || exit 2
if grep -q "^// cli" "$here/main.go"; then # the demonstration runs the command line program
  echo "// stand-in" >"$tmp/x.js"
  printf '{"Replace":{"%s/web/blockly/x.js":"%s/x.js"}}' "$repo" "$tmp" >"$tmp/c.json"
  go build -overlay "$tmp/c.json" -o "$tmp/nl" ./cmd/nightlight || exit 2
  export NL="$tmp/nl"
fi
mkdir "$tmp/w" && cd "$tmp/w" && timeout 200 "$tmp/demo"
