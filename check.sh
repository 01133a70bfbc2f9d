#!/bin/bash
# check.sh PROPERTY [glsim flags]: decides one property against /repo's working tree.
cd "$(dirname "$0")/sim" || exit 3
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GLSIM_ROOT="$(cd .. && pwd)"
export GOCACHE="$GLSIM_ROOT/.build/gocache"
mkdir -p ../.build || exit 3
go build -buildvcs=false -o ../.build/glsim.$$ . >&2 || exit 3
trap '/bin/rm -f "$GLSIM_ROOT/.build/glsim.$$"' EXIT
p=$1; shift
case "$p" in
setup) ../.build/glsim.$$ build && ../.build/glsim.$$ selftest -cases 40 ;;
replay) ../.build/glsim.$$ replay "$@" ;;
*) ../.build/glsim.$$ check -prop "$p" "$@" ;;
esac
