#!/bin/bash
# run.sh PROPERTY [quick|thorough] [mc flags]: decides one property on /repo's
# current working tree. Exit 0: held on everything explored; 1: VIOLATION.
P=${1:?usage: run.sh PROPERTY [quick|thorough]}
T=${2:-${VERIF_TIER:-quick}}
shift; shift 2>/dev/null
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 3
. /opt/vp/env.sh
W=$(mktemp -d /tmp/diskii-verif.XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/mc" "$W/src" || exit 3
cp /repo/go.sum "$W/src/go.sum" || exit 3
(cd "$W/src" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$W/mc" . 2>"$W/err") ||
  GOFLAGS="-mod=mod -buildvcs=false" python3 "$HERE/subset.py" "$W/src" "$P" "$W/mc" 2>/dev/null || { cat "$W/err" >&2; echo "run.sh: cannot build the explorer against /repo" >&2; exit 3; }
(cd /repo && go build -o "$W/diskii" .) || { echo "run.sh: cannot build /repo" >&2; exit 3; }
mkdir "$W/work" || exit 3
"$W/mc" -prop "$P" -tier "$T" -bin "$W/diskii" -work "$W/work" -out "$HERE" "$@"
