#!/bin/bash
# usage: check.sh Cxx [quick|thorough]   (VERIF_SEED, VERIF_TIER respected)
# Runs the monitors of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -X pycache_prefix=/nonexistent-kk -m kk.main "$@"
