#!/bin/bash
# Builds the checker if it is missing or older than its sources.
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin
if [ ! -x ../bin/gosym ] || [ -n "$(find . -name '*.go' -newer ../bin/gosym -print -quit)" ]; then
	go build -o ../bin/gosym.tmp.$$ . && mv ../bin/gosym.tmp.$$ ../bin/gosym
fi
