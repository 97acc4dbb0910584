#!/bin/bash
# Builds the analyser from the committed sources, offline.
cd "$(dirname "$0")/tool" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p ../bin && exec go build -o ../bin/vt .
