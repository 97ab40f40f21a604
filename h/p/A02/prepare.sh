#!/bin/bash
set -e
CGO_ENABLED=1 bash "$1/h/cli/build.sh" "$1" "$2" -race
mv "$2/nightlight" "$2/nightlight-race"
bash "$1/h/cli/build.sh" "$1" "$2"
