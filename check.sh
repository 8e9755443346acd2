#!/bin/bash
# bash check.sh <property id>: verify the property's contracts against /repo's
# current tree. Rebuilds the verifier if it is not there.
cd "$(dirname "$0")" || exit 2
export GOROOT=/opt/veriftools/go1.23.12 GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=$GOROOT/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
mkdir -p bin out evidence
if ! (cd gov && go build -o ../bin/gov .) ; then
  echo "check error: the verifier does not build"; exit 2
fi
exec bin/gov check "$1"
