#!/bin/bash
# usage: run.sh C01 [C02 ...]   |   run.sh replay FILE
# environment: VERIF_TIER=quick|thorough, VERIF_SEED, MC_REPO (tree to check, default /repo)
cd "$(dirname "$(readlink -f "$0")")" || exit 3
mkdir -p evidence/replay evidence/.cache/mpl
export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore TZ=UTC LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=agg MPLCONFIGDIR="$PWD/evidence/.cache/mpl"
exec python -m mc.main "$@"
