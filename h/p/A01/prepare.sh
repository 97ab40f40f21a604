#!/bin/bash
exec bash "$1/h/cli/build.sh" "$1" "$2"
