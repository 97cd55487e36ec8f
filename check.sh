#!/bin/sh
# check.sh ID [quick|thorough]: decides one property on /repo's current source.
# check.sh -replay ID: runs the failing input of the last report again.
# check.sh -build: builds the verifier.
set -e
dir=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
bin=$dir/.build/gvc
mkdir -p "$dir/.build"
(cd "$dir/gvc" && GOFLAGS=-mod=vendor go build -o "$bin" .)
case "$1" in
-build) exit 0 ;;
-replay) exec "$bin" -replay "$2" -repo "${REPO:-/repo}" -dir "$dir" ;;
esac
exec "$bin" -check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${REPO:-/repo}" -dir "$dir"
