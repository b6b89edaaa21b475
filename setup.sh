#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
cd engine
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gosym .
echo "built $(cd .. && pwd)/bin/gosym"
