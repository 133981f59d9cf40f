#!/bin/sh
# Builds the analyser into bin/an when it is missing or older than its source.
cd "$(dirname "$0")/analyzer" || exit 2
if [ -x ../bin/an ] && [ -z "$(find . -name '*.go' -newer ../bin/an | head -1)" ]; then exit 0; fi
mkdir -p ../bin
GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=0 go build -o ../bin/an.$$ . && mv ../bin/an.$$ ../bin/an
