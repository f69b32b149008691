#!/bin/bash
# development aid: one.sh <id> <seed>...
cd "$(dirname "$0")"
exec env RTSIM_READY=1 LD_PRELOAD=/verif/build/simio.so PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=${PYTHONHASHSEED:-0} NUMBA_CACHE_DIR=/tmp/w/numba /opt/venv/bin/python /verif/tools/one.py "$@"
