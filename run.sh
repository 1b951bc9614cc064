#!/bin/bash
# Usage: run.sh <PROPERTY> <quick|thorough> [args]
cd "$(dirname "$0")" || exit 2
ID="$1"; shift
TIER="$1"; shift
export VERIF_TIER="$TIER"
export VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 LSST_DISABLE_BUCKET_VALIDATION=1
SCRATCH=$(mktemp -d /tmp/verif_run_XXXXXX) || exit 2
export TMPDIR="$SCRATCH"
/opt/venv/bin/python -m "checks.$(echo "$ID" | tr 'A-Z' 'a-z')" "$@"
RC=$?
[ -n "$SCRATCH" ] && rm -rf -- "$SCRATCH"
exit $RC
