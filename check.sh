#!/bin/bash
# check.sh ID [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export VX_VERIF="$here"
bash "$here/setup.sh" || exit 2
exec "$here/bin/engine" check "$1" "${2:-${VERIF_TIER:-quick}}"
