#!/bin/bash
# run.sh check ID | replay FILE | list | selftest : builds the checker from
# /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p .build evidence || exit 2
B=$V/.build/run.$$
mkdir -p "$B" || exit 2
trap 'rm -rf "$B"' EXIT
fail() { echo "cannot build the checker against /repo ($1)" >&2; exit 2; }
build() { (cd mc && go build "$@") || fail "$*"; }
build -o "$B/mc" .
export MC_VERIF=$V
if [ "${1-}" = list ] || [ "${1-}" = selftest ]; then
  "$B/mc" "$@"
  exit $?
fi
if [ "${2-}" = C22 ] || { [ "${1-}" = replay ] && grep -q '"property": *"C22"' "${2-}"; }; then
  # instrumented copies of the packages, and a race-detector build
  MC_GOROOT=$(go env GOROOT) "$B/mc" instrument /repo "$B/instr" || fail instrument
  (cd mc && CGO_ENABLED=1 go build -race -overlay "$B/instr/race.json" -o "$B/mc-race" .) &
  build -tags instr -overlay "$B/instr/overlay.json" -o "$B/mc-instr" .
  wait $! || fail race
  export MC_SITES=$B/instr/sites.json MC_RACE_EXE=$B/mc-race
  "$B/mc-instr" "$@"
  exit $?
fi
"$B/mc" "$@"
