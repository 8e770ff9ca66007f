#!/bin/bash
# Warms the Go build cache with the explorer and the tool; the checks rebuild both.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
. /opt/vp/env.sh
W=$(mktemp -d /tmp/diskii-verif.XXXXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
cp -r mc "$W/src" && cp /repo/go.sum "$W/src/go.sum" || exit 1
(cd "$W/src" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$W/mc" .) || exit 1
(cd /repo && go build -o "$W/diskii" .) || exit 1
