#!/bin/bash
# usage: check.sh <property>|--build|all
# Builds the analyser from hv/ when needed and runs one check on /repo's
# current working tree. Exit 0: holds. Exit 1: VIOLATION.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOFLAGS=-mod=mod
unset GOOS GOARCH
mkdir -p "$here/bin" "$here/evidence"
bin="$here/bin/hv"
if [ ! -x "$bin" ] || [ -n "$(find "$here/hv" -newer "$bin" -type f | head -1)" ]; then
  tmp="$bin.$$"
  if ! (cd "$here/hv" && go build -o "$tmp" . ) >&2; then
    echo "the analyser does not build" >&2
    exit 2
  fi
  mv -f "$tmp" "$bin"
fi
[ "$1" = --build ] && exit 0
HV_VERIF=${HV_VERIF:-$here} exec "$bin" "$@"
