#!/bin/bash
# offline build of the verifier; warms the build cache of the harness
set -e
cd "$(dirname "$0")"
bash govc/build.sh
T=$(mktemp -d); (cd harness && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "$T/h" .); rm -r "$T"
