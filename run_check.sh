#!/bin/bash
# usage: run_check.sh <property id> [quick|thorough] [--replay FILE]
# Runs the bounded exploration of one property against the working tree of /repo.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; shift
TIER="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) TIER="$1"; shift;; esac
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENTURNS_NUM_THREADS=1 TBB_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}:$HERE"
SCRATCH="$(mktemp -d /tmp/otpod_mc.XXXXXX)"
export VERIF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
mkdir -p "$MPLCONFIGDIR"
cd "$SCRATCH"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -m mc.main "$ID" --tier "$TIER" "$@"
RC=$?
cd /
rm -rf -- "$SCRATCH"
exit $RC
