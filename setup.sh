#!/bin/bash
# setup.sh: builds the analyzer.
cd "$(dirname "$0")/analyzer" || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOWORK=off
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local
mkdir -p ../bin && go build -o ../bin/svgcheck . && touch ../bin/svgcheck
