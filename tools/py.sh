#!/bin/bash
# run a script with the checks' environment
HERE=/verif
export HOME=/root PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8
export MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 AWS_EC2_METADATA_DISABLED=true
export PYTHONPATH=/repo:$HERE/lib:$HERE/checks VERIF_HOME=/verif VERIF_REPO=/repo
exec python -W ignore "$@"
