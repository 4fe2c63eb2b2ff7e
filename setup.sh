#!/bin/bash
# Builds the symbolic engine from /verif/engine (offline).
set -e
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
[ -n "$HOME" ] || export HOME=/root
mkdir -p build
cd engine
CGO_ENABLED=0 go build -o ../build/engine.$$ .
mv ../build/engine.$$ ../build/engine
