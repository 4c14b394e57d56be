#!/bin/bash
# usage: bash run.sh C01 [--tier quick|thorough] [--replay FILE] [--selftest]
set -u
cd "$(dirname "$0")"
[ "${1:-}" = --setup ] && { /opt/venv/bin/python -B -c 'import sys; sys.path[:0] = ["vendor", "/repo"]; import hypothesis, bayesloop'; exit $?; }
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
scratch=$(mktemp -d /tmp/vf.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export VF_SCRATCH=$scratch HYPOTHESIS_STORAGE_DIRECTORY=$scratch/hyp
export MPLCONFIGDIR=$scratch/mpl
mkdir -p "$MPLCONFIGDIR"
# matplotlib font cache: reuse the one of the environment if there is one (read-only use)
[ -d /opt/venv/mplconfig ] && cp -r /opt/venv/mplconfig/. "$MPLCONFIGDIR"/ 2>/dev/null
/opt/venv/bin/python -B -m vf.main "$@"
rc=$?
exit $rc
