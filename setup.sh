#!/bin/bash
# Builds the analysis tool from the committed sources (offline).
set -e
cd "$(dirname "$0")/tool"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor CGO_ENABLED=0 GO111MODULE=on HOME="${HOME:-/root}"
mkdir -p ../bin
go build -o ../bin/vt .
