#!/bin/bash
# Runs main.go (beside this script) against the tree in the current directory.
# Exit 0: behaves as documented; nonzero: it does not.
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$HERE" > "$W/overlay.json"
go build -buildvcs=false -overlay "$W/overlay.json" -o "$W/demo" ./zzdemo || exit 2
go build -buildvcs=false -o "$W/diskii" . || exit 2
mkdir "$W/scratch" && cd "$W/scratch" && timeout 120 "$W/demo" "$W/diskii"
