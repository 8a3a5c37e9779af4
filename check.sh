#!/bin/bash
# ./check.sh <PROPERTY> [--replay FILE]      decide one property against /repo's working tree
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
./setup.sh || exit 2
export PYTHONDONTWRITEBYTECODE=1
PYC=$(mktemp -d) || exit 2
export PYTHONPYCACHEPREFIX=$PYC          # never reuse (or leave) byte code of another tree
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONHASHSEED SYMPY_USE_CACHE SYMPY_CACHE_SIZE
/opt/venv/bin/python -W ignore -m pbt.run "$@"
rc=$?
rm -rf -- "$PYC"
exit $rc
