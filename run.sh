#!/bin/bash
# bash run.sh ID quick|thorough          decide one property
# bash run.sh ID replay FILE             re-execute a recorded violation
# bash run.sh setup                      warm the build cache
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on
export VERIF_SEED="${VERIF_SEED:-1}"
id="$1"; tier="${2:-quick}"
work="$(mktemp -d /tmp/mcbuild.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
build() { (cd mc && go test -c -vet=off "$@" . ) ; }
if [ "$id" = setup ]; then
  build -o "$work/mc.test" && build -race -o "$work/race.test" || exit 2
  exit 0
fi
build -o "$work/mc.test" || { echo "cannot build the checks against /repo"; exit 2; }
case "$id" in
  T08|T09|T10|S02|X02)
    build -race -o "$work/race.test" || exit 2
    export MC_RACEBIN="$work/race.test" ;;
esac
export MC_ROLE=parent MC_ID="$id" MC_TIER="$tier"
unset MC_REPLAY
if [ "$tier" = replay ]; then
  export MC_REPLAY="$(realpath "$3")" MC_TIER=quick
fi
( ulimit -c 0; cd mc && "$work/mc.test" -test.timeout=0 )
rc=$?
exit $rc
