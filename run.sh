#!/bin/bash
# run.sh PROP [quick|thorough]      check one property against /repo's working tree
# run.sh replay FILE                re-execute a replay file (exit 1: it still fails)
# run.sh build DIR [race]           only build the simulator binary into DIR
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off
cmd=${1:?property}
build() { # build OUT RACE WORK
  local out=$1 race=$2 w=$3
  mkdir -p "$w/utilx" "$w/repo" || return 2
  # a private copy, so that nothing here can touch the repository
  (cd "$REPO" && find . -path ./.git -prune -o \( -name '*.go' ! -name '*_test.go' -o -name go.mod -o -name go.sum \) -type f -print0 | tar -cf - --null -T - ) | tar -xf - -C "$w/repo" || return 2
  (cd "$V" && go build -o "$w/instrument" ./cmd/instrument) || return 2
  "$w/instrument" -src "$w/repo" -dst "$w/utilx" $race || return 2
  # map keys with interfaces are comparable for the generic range only from 1.20 on
  sed -i -E "s/^go 1\.1[0-9](\.[0-9]+)?$/go 1.20/" "$w/utilx/go.mod" || return 2
  { echo "module verif"; echo; echo "go 1.25"; echo
    sed -n '/^require/,$p' "$w/repo/go.mod"
    echo "require github.com/unsafe-risk/utilx v0.0.0"
    echo "replace github.com/unsafe-risk/utilx => $w/utilx"; } > "$w/go.mod"
  cp "$w/repo/go.sum" "$w/go.sum"
  local gf=() ge=
  # prop: nothing may be inlined into it, or the library's code would lose its instrumentation;
  # uninstrumented packages must not use the allocation paths that skip the race
  # runtime: stale shadow memory would look like a race
  [ -n "$race" ] && ge=nosizespecializedmalloc && gf=(-race "-gcflags=verif/...=-race=false" "-gcflags=verif/prop=-race=false -l" "-gcflags=verif/adapt=" "-gcflags=verif/sim/simatomic=")
  (cd "$V" && GOEXPERIMENT=$ge go build -trimpath -modfile "$w/go.mod" "${gf[@]}" -o "$out" ./cmd/simrun) || return 2
}
W=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
if [ "$cmd" = build ]; then
  mkdir -p "$2"; build "$2/simrun" "${3:+-race}" "$W" || exit 2
  exit 0
fi
if [ "$cmd" = setup ]; then
  # warms the build cache; every check rebuilds from the working tree anyway
  build "$W/simrun" -race "$W/a" && build "$W/simrun" "" "$W/b" || exit 2
  exit 0
fi
if [ "$cmd" = replay ]; then
  f=$(realpath -- "$2")
  p=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$f" | head -1)
else
  p=$cmd
fi
race=-race
case " $(cat "$V/norace.txt") " in *" $p "*) race= ;; esac
build "$W/simrun" "$race" "$W" || { echo "build failed" >&2; exit 2; }
if [ "$cmd" = replay ]; then
  GOMAXPROCS=1 GORACE="exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=$W/race" "$W/simrun" replay "$f"
  exit $?
fi
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/evidence" "$V/replays"
GORACE="exitcode=0 log_path=/dev/null" "$W/simrun" check -prop "$p" -tier "$tier" -seed "${VERIF_SEED:-1}" -evidence "$V/evidence/$p.json" -replays "$V/replays" -known "$V/known-findings.txt" -tmp "$W" ${VERIF_RUNS:+-runs $VERIF_RUNS} ${VERIF_WALL:+-wall $VERIF_WALL}
