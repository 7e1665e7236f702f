#!/bin/bash
# check.sh setup            builds the engine
# check.sh PROPERTY         runs the check of one property
# check.sh replay FILE      runs a replay file again
# check.sh selftest         compares the library models with the library
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
build() { (cd engine && go build -o engine .) || { echo "check.sh: building the engine failed" >&2; exit 2; }; }
case "${1:-}" in
setup) build ;;
replay) build; exec engine/engine replay "$2" ;;
selftest) build; exec engine/engine selftest ;;
"") echo "usage: check.sh setup|PROPERTY|replay FILE|selftest" >&2; exit 2 ;;
*) build; exec engine/engine check "$1" ;;
esac
