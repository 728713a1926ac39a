#!/bin/sh
# check.sh PROPERTY [quick|thorough]: build the verifier from the committed sources and check one property of /repo's current tree
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset GOVER_CACHE
V=$(pwd)
T=${2:-${VERIF_TIER:-quick}}
B=$(mktemp -d /tmp/gover.XXXXXX)
(cd gover && go build -o "$B/gover" .) || { echo "the verifier does not build"; exit 2; }
"$B/gover" check -prop "$1" -tier "$T" -verif "$V" -repo "${GOSB_REPO:-/repo}"
rc=$?
rm -rf "$B"
exit $rc
