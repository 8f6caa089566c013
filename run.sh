#!/bin/bash
# run.sh <property> [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_DIR="$PWD"
if [ ! -x bin/checker ] || [ -n "$(find checker -newer bin/checker -type f \( -name '*.go' -o -name '*.txt' -o -name 'go.*' \) -print -quit)" ]; then
  bash setup.sh || { echo "checker does not build" >&2; exit 2; }
fi
exec ./bin/checker "$1" "${2:-${VERIF_TIER:-quick}}"
