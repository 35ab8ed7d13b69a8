#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [more simrun flags]   -- builds the simulator against /repo and checks one property
# usage: check.sh build | race-build | replay FILE
cd "$(dirname "$0")" || exit 2
V=$PWD
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
. <(grep '^export' /opt/vp/env.sh)
export CGO_ENABLED=1
P=$1; shift
B=${VERIF_BUILD:-$V/.build}
RACE=
case $P in C22|race-build) B=${VERIF_BUILD:-$V/.build}-race; RACE=-race;; esac
if [ "$P" = replay ]; then case $(grep -o '"property": "[^"]*"' "$1" | head -1) in *C22*) B=${VERIF_BUILD:-$V/.build}-race; RACE=-race;; esac; fi
mkdir -p "$B" || exit 2
(
	flock 9
	# everything the binary depends on
	key=$( { cd "$REPO" && find . -name '*.go' -not -path './.git/*' -o -name go.mod -o -name go.sum | LC_ALL=C sort | xargs sha256sum; cd "$V/sim" && find . -name '*.go' -o -name go.mod | LC_ALL=C sort | xargs sha256sum; echo "$REPO $V $RACE"; } | sha256sum)
	if [ "$(cat "$B/key" 2>/dev/null)" != "$key" ] || [ ! -x "$B/simrun" ]; then
		rm -f "$B/key" "$B/simrun"
		(cd "$V/sim" && go build -o "$B/instr" ./cmd/instr) || exit 2
		"$B/instr" -repo "$REPO" -out "$B" -sim "$V/sim" $RACE || exit 2
		echo "$key" >"$B/key"
	fi
) 9>"$B/lock" || exit 2
case $P in
build|race-build) exit 0;;
replay) exec "$B/simrun" replay -sites "$B/sites.json" -in "$@";;
hash) exec "$B/simrun" hash -sites "$B/sites.json" "$@";;
esac
TIER=${1:-${VERIF_TIER:-quick}}; shift
"$B/simrun" check -prop "$P" -tier "$TIER" -seed "${VERIF_SEED:-1}" -sites "$B/sites.json" -level "$(cat "$B/level")" \
	-evidence "$V/evidence/$P.json" -known "$V/known-findings.txt" -replays "$V/replays" "$@"
