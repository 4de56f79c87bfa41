#!/bin/bash
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p evidence
out=$(mktemp -d) && trap 'rm -rf "$out"' EXIT
(cd govc && go vet . && go build -o "$out/govc" .) && (cd checker && go build -o "$out/checker" .) || exit 1
for t in z3-new z3 cvc5; do command -v $t >/dev/null || { echo "no $t" >&2; exit 1; }; done
exit 0
