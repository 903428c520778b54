#!/bin/bash
# Builds the checker from the committed files, offline.
set -e
cd "$(dirname "$0")/../checker"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
out="$(cd .. && pwd)/bin"
mkdir -p "$out"
go build -o "$out/checker.new" ./cmd/checker
mv "$out/checker.new" "$out/checker"
