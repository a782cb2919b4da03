#!/bin/bash
# check.sh <PROPERTY-ID> [--replay FILE | --sub NAME | ...]
# Runs one registered check against /repo's working tree (SALib is pure Python:
# it is imported straight from /repo/src, so the check always sees current code).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore "$here/vlib/runner.py" "$@"
