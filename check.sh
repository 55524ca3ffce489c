#!/bin/bash
# check.sh setup | check.sh replay FILE | check.sh <property> [gosym flags]
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
mkdir -p .cache evidence
if [ ! -d .cache/gocache ]; then
  if [ -d /opt/vp/gocache ]; then
    cp -a /opt/vp/gocache ".cache/gocache.$$" && mv -T ".cache/gocache.$$" .cache/gocache 2>/dev/null
  fi
  mkdir -p .cache/gocache
fi
build() (
  cd engine || exit 2
  export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOENV=off GOCACHE=$V/.cache/gocache-engine
  go build -o "$V/.cache/gosym.$$" . && mv -f "$V/.cache/gosym.$$" "$V/.cache/gosym"
)
newer() { [ ! -x .cache/gosym ] || [ -n "$(find engine -newer .cache/gosym -print -quit)" ]; }
case "${1:-}" in
setup)
  build || exit 2
  exec .cache/gosym warm -verif "$V" -repo /repo
  ;;
replay)
  if newer; then build || exit 2; fi
  exec .cache/gosym replay -verif "$V" -repo /repo -file "$2"
  ;;
C*)
  p=$1; shift
  if newer; then build || exit 2; fi
  GODEBUG=gcshrinkstackoff=1 exec .cache/gosym check -prop "$p" -verif "$V" -repo /repo "$@"
  ;;
*) echo "usage: check.sh setup|replay FILE|Cxx"; exit 2 ;;
esac
