#!/bin/bash
# Builds the analyser from /verif/tool into /verif/bin, offline.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
mkdir -p bin evidence
cd tool
go build -o ../bin/joecheck.new .
mv ../bin/joecheck.new ../bin/joecheck
