#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property for /repo's current tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOPROXY=off GOTOOLCHAIN=local
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -name '*.go' -print -quit)" ]; then
  ./setup.sh >/dev/null || exit 2
fi
exec bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
