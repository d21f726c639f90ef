#!/bin/bash
# dev.sh -prop Cxx [-h regexp]...: developer output. REPO names another tree than /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build
(cd engine && go build -o ../build/gosym .) || exit 1
GOSYM_DEBUG=1 exec ./build/gosym -verif "$PWD" -repo "${REPO:-/repo}" -dev "$@"
