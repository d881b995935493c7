#!/bin/bash
# check.sh PROPERTY [quick|thorough]: exit 0 held, 1 violated, 2 no answer.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
export VERIF_DIR="$here"
exec "$here/dst/target/release/dst" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
