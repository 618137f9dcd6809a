#!/bin/bash
# check.sh CNN [--replay FILE]: run the check of one property against /repo.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/run_check.py" "$@"
