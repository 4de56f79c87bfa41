#!/bin/bash
# usage: ./check.sh PROPERTY   (from /verif; VERIF_TIER and VERIF_SEED are read)
cd "$(dirname "$0")" || exit 1
. ./env.sh
id=$1
bin=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 1
trap 'rm -rf "$bin"' EXIT
mkdir -p evidence
if ! (cd govc && go build -o "$bin/govc" .) || ! (cd checker && go build -o "$bin/checker" .); then
	echo "the verifier does not build" >&2
	exit 3
fi
GOVC=$bin/govc "$bin/checker" "$id"
