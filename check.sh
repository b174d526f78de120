#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]
# Runs one property check against the code in /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
id=$1; shift
if [ "$1" = quick ] || [ "$1" = thorough ]; then export VERIF_TIER=$1; shift; fi
scratch=$(mktemp -d "${TMPDIR:-/tmp}/rt1mc.XXXXXX") || exit 2
export RT1MC_SCRATCH=$scratch
export LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=$scratch/mpl PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
mkdir -p "$MPLCONFIGDIR"
"${RT1MC_PYTHON:-/opt/venv/bin/python}" -B -m mc.run "$id" "$@"
rc=$?
case "$scratch" in */rt1mc.*) rm -rf "$scratch" ;; esac
exit $rc
