#!/bin/bash
cd "$(dirname "$0")" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "${1:-/tmp/gocv}" .
