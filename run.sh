#!/bin/bash
# bash /verif/run.sh <PROPERTY-ID> [quick|thorough]     run one check
# bash /verif/run.sh replay <replay-file>               re-execute one recorded case
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" HDF5_USE_FILE_LOCKING=${HDF5_USE_FILE_LOCKING:-TRUE}
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)" 2>/dev/null
cd "$here" || exit 2
if [ "$1" = replay ]; then exec python -W ignore -m mc.run replay "$2"; fi
export VERIF_TIER=$tier
exec python -W ignore -m mc.run "$1"
