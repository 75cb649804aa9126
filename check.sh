#!/bin/bash
# ./check.sh C01 [quick|thorough] [more args]      run one check
# ./check.sh C01 --replay FILE                     re-run one saved case
cd "$(dirname "$0")" || exit 2
export PATH=/opt/pymbs-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 CC=/usr/bin/gcc CXX=/usr/bin/g++
export QT_QPA_PLATFORM=offscreen MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/pymbs-venv/bin/python -W ignore run.py "$@"
