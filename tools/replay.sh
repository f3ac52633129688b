#!/bin/sh
# tools/replay.sh PROPERTY SEED BUILD: runs again the search that found a failing input (BUILD is default or buddy).
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d)
{
	printf '{"Replace":{'
	for f in /repo/*_test.go; do printf '"%s":"",' "$f"; done
	c=
	for f in "$V"/replay/*_test.go; do printf '%s"/repo/zz_verif_%s":"%s"' "$c" "$(basename "$f")" "$f"; c=,; done
	printf '}}'
} >"$T/ov.json"
tag=
[ "$3" = buddy ] && tag=buddy
cd /repo && VERIF_PROP=$1 VERIF_SEED=$2 VERIF_SECS=60 VERIF_OUT="$T/history.txt" go test -vet=off -overlay "$T/ov.json" -tags "$tag" -count=1 -v -run TestReplay .
r=$?
cat "$T/history.txt" 2>/dev/null
rm -rf "$T"
exit $r
