#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD REPO_DIR=${REPO_DIR:-/repo} VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local
[ -x bin/govc ] || ./setup.sh || exit 3
exec bin/govc check "$1"
