#!/bin/bash
# check.sh PROPERTY quick|thorough   decide one property on /repo's working tree
# check.sh replay FILE               replay a failure exactly
# check.sh all quick|thorough        every property of MANIFEST.json, for people
#
# Exit 0: the property held on everything explored. 1: violation. 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
if [ "$1" = all ]; then
	for id in $(python3 -c 'import json,sys; print(*[c["property"] for c in json.load(open(sys.argv[1]))["checks"]])' "$here/MANIFEST.json"); do
		"$here/check.sh" "$id" "${2:-quick}"; echo "$id: exit $?"
	done
	exit
fi
[ $# -ge 2 ] || { sed -n 2,4p "$0"; exit 2; }
scratch=$(mktemp -d /tmp/btrsim.XXXXXXXX) || exit 2
trap 'cd /; rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
chmod 755 "$scratch"
export TMPDIR=$scratch SIM_KNOWN=$here/known-findings.txt
log=$scratch/build.log
build() { rm -rf "$scratch/b"; SIM_TAGS=$1 "$here/sim/build.sh" "$scratch/b" >"$log" 2>&1; }
# Some drivers use the packages of /repo directly. If a change there leaves them
# without something to compile against, the checks that go through the command
# line are still able to answer.
if ! build api; then
	cp "$log" "$scratch/build-api.log"
	if ! build ""; then cat "$log" >&2; echo "check: cannot build the simulation" >&2; exit 2; fi
	echo "check: built without the drivers of the package interfaces:" >&2; tail -5 "$scratch/build-api.log" >&2
fi
if [ "$1" = replay ]; then
	"$scratch/b/harness.bin" replay "$2"
	exit
fi
export SIM_TIER=$2 SIM_EVIDENCE=$here/evidence/$1.json SIM_REPLAYS=${SIM_REPLAYS:-$here/replays}
mkdir -p "$here/evidence" "$SIM_REPLAYS" "$scratch/run"; chmod 755 "$scratch/run"
"$scratch/b/harness.bin" check "$1" "$scratch/run"
