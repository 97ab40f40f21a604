#!/bin/bash
# build.sh <here> <tmp> [go build flags]   builds the command line program from /repo's working tree to <tmp>/nightlight.
# The web package embeds the directory web/blockly, a git submodule that is empty here: an overlay supplies one stand-in
# file for it, and nothing else.
set -e
tmp=$2; shift 2
repo=${VERIF_REPO:-/repo}
if [ -n "$(ls -A $repo/web/blockly 2>/dev/null)" ]; then echo '{"Replace":{}}'; else
  echo '// stand-in' > "$tmp/blockly.js"
  echo "{\"Replace\":{\"$repo/web/blockly/x.js\":\"$tmp/blockly.js\"}}"
fi > "$tmp/blockly.json"
[ -z "${VERIF_OVERLAY:-}" ] || python3 - "$tmp/blockly.json" "$VERIF_OVERLAY" <<'P'
import json,sys
a=json.load(open(sys.argv[1])); a['Replace'].update(json.load(open(sys.argv[2]))['Replace']); json.dump(a,open(sys.argv[1],'w'))
P
cd "$repo"
go build -overlay "$tmp/blockly.json" "$@" -o "$tmp/nightlight" ./cmd/nightlight
