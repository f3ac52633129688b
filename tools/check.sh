#!/bin/sh
# tools/check.sh PROPERTY [TIER]: builds the verifier when needed and runs the check of one property.
cd "$(dirname "$0")/.." || exit 1
V=$(pwd)
TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/bin" "$V/evidence"
(cd gvc && GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$V/bin/gvc" .) || { echo "the verifier does not build"; exit 3; }
[ "$1" = build ] && exit 0
exec "$V/bin/gvc" check -verif "$V" -repo /repo -spec "$V/contracts" -prop "$1" -tier "$TIER"
