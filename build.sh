#!/bin/bash
# Builds the engine into bin/.
cd "$(dirname "$0")" || exit 2
export GOROOT=/opt/veriftools/go1.27.3 GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p bin
(cd harness && ./mkreg.sh)
cd engine && GOFLAGS=-mod=vendor $GOROOT/bin/go build -o ../bin/xverify ./cmd/xverify
