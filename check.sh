#!/bin/bash
# check.sh Cxx [--tier quick|thorough] [--secs N] [--seed N]   decide one property
# check.sh --replay FILE                                       replay a violation
# check.sh --warm                                              only build (setup)
# The simulator is built from /repo's working tree in a scratch directory.
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
prop= replay= warm= secs=
while [ $# -gt 0 ]; do
	case "$1" in
	--tier) tier=$2; shift 2 ;;
	--seed) seed=$2; shift 2 ;;
	--secs) secs=$2; shift 2 ;;
	--replay) replay=$2; shift 2 ;;
	--warm) warm=1; shift ;;
	*) prop=$1; shift ;;
	esac
done
[ -n "$prop$replay$warm" ] || { echo "usage: check.sh Cxx | --replay FILE" >&2; exit 2; }
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac

export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GONOSUMDB='*' GOWORK=off GO111MODULE=on CGO_ENABLED=1
[ -n "$HOME" ] || export HOME=/root
unset GORACE

base=${SIM_TMP:-/tmp}
S=$(mktemp -d "$base/jsvalsim.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
trap 'exit 2' INT TERM HUP

# Properties that make no claim about data races run without the race detector,
# which makes them several times faster.
race=-race
case "$prop" in C06|C07|C09|C10) race= ;; esac
if [ -n "$replay" ] && grep -qE '"property": *"(C06|C07|C09|C10)"' "$replay" 2>/dev/null; then race=; fi

t0=$(date +%s.%N)
build() { # build LEVEL
	local d="$S/b$1"
	mkdir -p "$d/h" || return 1
	"$S/instr" -repo "$REPO" -out "$d" -mods "/opt/vp/mod,$V/mod" -level "$1" >"$S/instr.log" 2>&1 || return 1
	cp "$V"/harness/*.go "$d/h/" || return 1
	sed "s#@S@#$d#; s#@V@#$V#" "$V/harness/go.mod.tmpl" >"$d/h/go.mod" || return 1
	cp "$d/jsval/go.sum" "$d/h/go.sum" 2>/dev/null
	(cd "$d/h" && go build $race -o "$S/sim" .) >"$S/build.log" 2>&1 || return 1
	if [ -n "$race" ] && [ -z "$replay" ]; then
		(cd "$d/h" && go build -o "$S/fast" .) >"$S/build.log" 2>&1 || return 1
	fi
	cp "$d/sites.json" "$S/sites.json"
}
if ! (cd "$V/instr" && go build -o "$S/instr" .) >"$S/build.log" 2>&1; then
	cat "$S/build.log" >&2
	exit 2
fi
ilevel=
for l in 3 2 1 0; do
	if build $l; then
		ilevel=$l
		break
	fi
	echo "level $l instrumentation does not build:" >&2
	tail -n 15 "$S/instr.log" "$S/build.log" >&2
	rm -rf "$S/b$l"
done
[ -n "$ilevel" ] || { echo "cannot build the simulator from $REPO" >&2; exit 2; }
rm -rf "$S/b$ilevel"
bs=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
if [ -n "$warm" ]; then exit 0; fi
export SIM_SITES="$S/sites.json"
mkdir -p "$S/w"
if [ -n "$replay" ]; then
	"$S/sim" replay -scratch "$S/w" "$replay"
	exit $?
fi
if [ -z "$secs" ]; then
	secs=25
	[ "$tier" = thorough ] && secs=600
fi
alt=
[ -x "$S/fast" ] && alt="$S/fast"
"$S/sim" drive -alt "$alt" -prop "$prop" -tier "$tier" -seed "$seed" -secs "$secs" -scratch "$S/w" \
	-evidence "$V/evidence/$prop.json" -replays "$V/evidence/replays" \
	-known "$V/known-findings.txt" -buildsecs "${bs:-0}" -instr "$ilevel" -entry "bash $V/check.sh"
