#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 re-run a saved failing case
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Other: error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
unset GOGC GOMEMLIMIT GODEBUG GOMAXPROCS
mode=${1:?usage: check.sh PROPERTY [quick|thorough] | check.sh replay FILE}
shift
replay=
if [ "$mode" = replay ]; then
  replay=$(realpath "${1:?file}"); shift
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$replay") || exit 2
else
  prop=$mode
  tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
fi
tmp=$(mktemp -d /tmp/verif-$prop-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
if ! (cd "$here/h" && go build -o "$tmp/check" "./p/$prop") >"$tmp/build.log" 2>&1; then
  echo "ERROR: building the check for $prop against /repo failed"; head -50 "$tmp/build.log"; exit 2
fi
if [ -f "$here/h/p/$prop/race" ]; then
  # some laws of this property run with Go's race detector
  if ! (cd "$here/h" && CGO_ENABLED=1 go build -race -o "$tmp/check-race" "./p/$prop") >"$tmp/build.log" 2>&1; then
    echo "ERROR: building the check for $prop with race detector against /repo failed"; head -50 "$tmp/build.log"; exit 2
  fi
fi
if [ -f "$here/h/p/$prop/prepare.sh" ]; then
  # further programs under test (the command line front end), built from /repo's working tree
  if ! bash "$here/h/p/$prop/prepare.sh" "$here" "$tmp" >"$tmp/build.log" 2>&1; then
    echo "ERROR: preparing the check for $prop failed"; head -50 "$tmp/build.log"; exit 2
  fi
fi
cd "$tmp" || exit 2
if [ -n "$replay" ]; then
  "$tmp/check" -replay "$replay" -known "$here/known_findings.txt"; exit $?
fi
"$tmp/check" -tier "$tier" -seed "${VERIF_SEED:-1}" -evidence "$here/evidence/$prop.json" -replays "$here/replays" -known "$here/known_findings.txt" "$@"
