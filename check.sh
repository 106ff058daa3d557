#!/bin/bash
# check.sh PROPERTY [quick|thorough]   search for a violation of one property
# check.sh replay FILE                 execute a replay file once more
#
# Instruments a scratch copy of /repo's working tree, builds the simulator
# from it and runs the seeded search. Exit 0: held on everything explored;
# 1: violated (with a VIOLATION line); anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
what=${1:?usage: check.sh PROPERTY [quick|thorough] | replay FILE}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=${CGO_ENABLED:-1}
unset GOWORK

mkdir -p "$here/.build" "$here/evidence" || exit 3
tmp=$(mktemp -d "$here/.build/run.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
trap 'exit 3' INT TERM

fail() { echo "check: $*" >&2; exit 3; }

instrument() {
	(cd "$here/sim/instr" && go build -o "$tmp/instr" .) || fail "cannot build the instrumenter"
	"$tmp/instr" -repo "$repo" -out "$tmp/src" -simrt "$here/sim/simrt" -harness "$here/sim/harness" >"$tmp/instr.log" 2>&1 || {
		cat "$tmp/instr.log" >&2
		fail "cannot instrument $repo"
	}
}

build() { (cd "$tmp/src" && go build -o "$tmp/sim" ./zzsim) || fail "cannot build the simulator from $repo"; }

# the scheduler is left out of the race detector: its hand-offs must not order
# the callers it schedules
build_race() {
	local mod
	mod=$(awk '$1=="module"{print $2}' "$tmp/src/go.mod")
	(cd "$tmp/src" && go build -race "-gcflags=$mod/zzsimrt/...=-race=false" -o "$tmp/simrace" ./zzsim) || fail "cannot build the race simulator from $repo"
}
export GORACE="exitcode=0 halt_on_error=0 history_size=5"

if [ "$what" = replay ]; then
	file=$(readlink -f "${2:?usage: check.sh replay FILE}")
	instrument
	bin=$tmp/sim
	if grep -q '"race": true' "$file"; then build_race; bin=$tmp/simrace; else build; fi
	"$bin" one -file "$file" -v yes
	exit $?
fi

race=no
secs=90 shrink=25 racesecs=60
case $what in
C01) runs=90000 raceruns=20000 race=yes ;;
C11) runs=140000 raceruns=25000 race=yes ;;
C02 | C05 | C06 | C07 | C14 | C15 | C16 | C17) runs=120000 ;;
C03 | C04 | C08 | C13 | C21 | C22) runs=150000 ;;
C09 | C10 | C12 | C18 | C19 | C20 | C23) runs=250000 ;;
*) fail "unknown property $what" ;;
esac
if [ "$tier" = thorough ]; then
	runs=$((runs * 20)) secs=560 shrink=60 racesecs=150
	[ $race = yes ] && raceruns=$((raceruns * 10)) secs=420
fi

instrument
build
args=(drive -prop "$what" -tier "$tier" -seed "$seed" -runs $runs -secs $secs -shrink $shrink -tmp "$tmp"
	-evidence "$here/evidence/$what.json" -replays "$here/evidence/replays")
if [ $race = yes ]; then
	build_race
	args+=(-racebin "$tmp/simrace" -raceruns $raceruns -racesecs $racesecs)
fi
ulimit -c 0
"$tmp/sim" "${args[@]}"
exit $?
