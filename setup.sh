#!/bin/bash
# builds the engine from the committed sources; offline
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o ../bin/engine.$$ . && mv ../bin/engine.$$ ../bin/engine
