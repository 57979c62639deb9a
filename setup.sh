#!/bin/bash
# Checks that everything builds. The checks build what they need themselves.
. /opt/vp/env.sh
export GOFLAGS=-buildvcs=false
cd "$(dirname "$0")" || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
(cd instr && go build -o "$t/instr" .) && (cd harness && go build -o "$t/vmon" .)
