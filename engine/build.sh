#!/bin/bash
# builds /verif/bin/gosym from the committed sources
set -e
cd "$(dirname "$0")"
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOSUMDB=off GOWORK=off GONOSUMDB='*'
mkdir -p ../bin
go build -o ../bin/gosym.tmp.$$ .
mv ../bin/gosym.tmp.$$ ../bin/gosym
