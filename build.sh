#!/bin/bash
# builds the verifier into /verif/.build
set -e
cd "$(dirname "$0")/govc"
source /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p ../.build
PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3 GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local go build -o ../.build/govc .
