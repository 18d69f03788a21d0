#!/bin/bash
# builds the verifier offline
cd "$(dirname "$0")" && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ../bin/govc .
