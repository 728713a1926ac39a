#!/bin/sh
# builds the verifier and warms the build cache for the replay drivers
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p bin
(cd gover && go build -o ../bin/gover .) || exit 1
(cd replay && go vet . && go build -o /dev/null . && go build -race -o /dev/null .) || exit 1
