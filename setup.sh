#!/bin/bash
# Builds the engine, and compiles the replay program once so that the checks find
# its dependencies in the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build evidence out
(cd engine && go build -o ../build/gosym .) || exit 2
(cd engine && go test -run Simplifier . ) || exit 2
./check.sh C21 quick >/dev/null
exit 0
