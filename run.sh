#!/bin/bash
# usage: bash run.sh CXX [--replay FILE] ; env: VERIF_SEED, VERIF_TIER
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg JAX_PLATFORMS=cpu
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m rv.main "$@"
