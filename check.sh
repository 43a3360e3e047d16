#!/bin/bash
# check.sh PROPERTY quick|thorough    decide a property on /repo's working tree
# check.sh replay FILE                repeat a violation from its replay file
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
P=$1
T=${2:-quick}
if [ "$P" = replay ]; then
	F=$(realpath "$2")
	W=$V/.work/replay-$$
	trap 'rm -rf "$V/.work/replay-$$"' EXIT
	args=()
	grep -q '"property": "C2[37]"' "$F" && args=(race)
	./build.sh "$W" "${args[@]}" || exit 2
	B=$W/mc
	grep -q '"property": "C2[37]"' "$F" && B=$W/mcrace
	"$B" -replay "$F"
	exit $?
fi
W=$V/.work/$P-$T-$$
trap 'rm -rf "$V/.work/$P-$T-$$"' EXIT
mkdir -p "$V/.work" "$V/evidence" "$V/replays"
kinds=(native)
[[ $P = C27 || $P = C23 ]] && kinds=(native race)
if ! ./build.sh "$W" "${kinds[@]}" > "$V/.work/$P-$T.log" 2>&1; then
	cat "$V/.work/$P-$T.log"
	exit 2
fi
extra=()
[[ $P = C27 || $P = C23 ]] && extra=(-racebin "$W/mcrace")
"$W/mc" -prop "$P" -tier "$T" -evidence "$V/evidence/$P.json" -replays "$V/replays" \
	-findings "$V/known-findings.txt" -native "$W/native" "${extra[@]}"
