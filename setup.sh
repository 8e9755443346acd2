#!/bin/bash
# builds the verifier from the committed files
cd "$(dirname "$0")" || exit 1
export GOROOT=/opt/veriftools/go1.23.12 GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=$GOROOT/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
mkdir -p bin out evidence
cd gov && go build -o ../bin/gov .
