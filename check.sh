#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build evidence out
if [ ! -x build/gosym ] || [ -n "$(find engine -newer build/gosym -name '*.go' -print -quit)" ]; then
	(cd engine && go build -o ../build/gosym .) || exit 2
fi
exec ./build/gosym -verif "$PWD" -repo "${REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
