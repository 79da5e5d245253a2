#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOWORK=off
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local
here=$(pwd)
bin=$here/bin/svgcheck
if [ ! -x "$bin" ] || [ -n "$(find analyzer -newer "$bin" -type f -print -quit)" ]; then
	bash "$here/setup.sh" || exit 2
fi
export VERIF_DIR=$here
exec "$bin" check "$1" "$2"
