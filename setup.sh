#!/bin/bash
# Warms the build cache; every check rebuilds what it needs by itself.
cd "$(dirname "$0")/harness" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p ../.build/setup && cp go.mod go.sum ../.build/setup/
go build -modfile=../.build/setup/go.mod -o ../.build/setup/h . && rm -rf ../.build/setup
