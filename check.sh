#!/bin/bash
# check.sh ID [quick|thorough]   run one check from /verif
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$PWD OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m dst.main "$1" --tier "${2:-quick}" "${@:3}"
