#!/bin/bash
# run.sh check Cxx [--tier quick|thorough]: builds the engine and runs a check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
G=/opt/veriftools/go1.26.10
[ -x $G/bin/go ] && export PATH=$G/bin:$PATH
unset GOROOT
mkdir -p .cache bin evidence
(
  export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOCACHE=$PWD/.cache/go GOPATH=$PWD/.cache/gopath GOMODCACHE=$PWD/.cache/gopath/pkg/mod
  cd engine && go build -o ../bin/verifeng ./cmd/verifeng
) || exit 2
[ "$1" = build ] && exit 0
exec bin/verifeng "$@"
