#!/bin/bash
# builds the verifier gover into bin/ (offline)
cd "$(dirname "$0")/gover" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p ../bin
go build -o ../bin/gover .
