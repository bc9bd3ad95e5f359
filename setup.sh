#!/bin/bash
# builds the verifier from the committed sources, offline
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence
cd govc && go build -o ../bin/govc .
