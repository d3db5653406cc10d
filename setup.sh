#!/bin/bash
# builds the verifier from the committed files (vendored dependencies)
cd "$(dirname "$0")/tool" || exit 1
. /opt/vp/env.sh 2>/dev/null
mkdir -p ../bin ../out
GOFLAGS=-mod=vendor GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/gocv . || exit 1
echo built
