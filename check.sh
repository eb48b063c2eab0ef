#!/bin/bash
# check.sh PROPERTY TIER: builds the verifier and runs the check of one property.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
P="${1:?property}"
T="${2:-quick}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/tmp/vcg-gocache}"
mkdir -p "$V/bin" "$GOCACHE" || exit 2
( cd "$V/engine" && go build -o "$V/bin/vcg" . ) || { echo "the verifier does not build"; exit 2; }
[ "$P" = --build ] && exit 0
exec "$V/bin/vcg" -repo "${VERIF_REPO:-/repo}" -verif "$V" -prop "$P" -tier "$T"
