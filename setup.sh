#!/bin/bash
# Builds the verifier from the committed files (offline).
set -e
cd "$(dirname "$0")/gover"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ../bin/gover .
