#!/bin/bash
# Builds the harness once, to see that everything needed is there.
set -e
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
t=$(mktemp -d)
go build -o "$t/vh" .
rm -rf "$t"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
echo setup ok
