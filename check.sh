#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the monitoring harness together with /repo's current working tree
# (through an overlay: nothing is written into /repo) and runs one check.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
cd "$repo" || exit 2
work=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
{
	printf '{"Replace":{'
	sep=
	for f in "$verif"/harness/*.go; do
		printf '%s"%s/zzverif/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}\n'
} > "$work/overlay.json"
race=
case $prop in C20) race=-race ;; esac
# The module files may not change: build against copies of them.
cp go.mod "$work/go.mod" && cp go.sum "$work/go.sum" || exit 2
if ! go build $race -overlay "$work/overlay.json" -modfile "$work/go.mod" -o "$work/harness" ./zzverif > "$work/build.log" 2>&1; then
	tail -n 40 "$work/build.log"
	echo "cannot build the harness against $repo"
	exit 3
fi
[ "$prop" = BUILD ] && exit 0
export VERIF_WORK="$work"
"$work/harness" run -prop "$prop" -tier "$tier" -seed "$seed" -verif "$verif"
rc=$?
exit $rc
