#!/bin/bash
# ./run.sh check <property> [quick|thorough]   or   ./run.sh replay <file>
# Builds the verifier from /verif/govc and runs it on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOENV=off GOWORK=off GOFLAGS= GOROOT=/opt/veriftools/go1.27.3
s=$(mktemp -d "${TMPDIR:-/tmp}/govcb.XXXXXX") || exit 2
trap 'rm -rf "$s"' EXIT
[ -d /opt/vp/gocache ] && cp -r /opt/vp/gocache "$s/gocache"
(cd "$here/govc" && GOCACHE="$s/gocache" GOPATH="$s/gopath" GO111MODULE=on CGO_ENABLED=0 go build -mod=vendor -o "$s/govc" .) || { echo "govc does not build"; exit 2; }
export TMPDIR="$s"
GOVC_VERIF="$here" GO111MODULE=off GOPATH=/repo/lib/go GOCACHE="$s/gocache" "$s/govc" "$@"
