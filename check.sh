#!/bin/bash
# bash check.sh <property id> [quick|thorough]
# Runs one registered check against /repo's current working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh ID [tier]}
TIER=${2:-${VERIF_TIER:-quick}}
export HOME=/root PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8
export MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 AWS_EC2_METADATA_DISABLED=true
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=${VERIF_REPO:-/repo} VERIF_HOME=$HERE
export PYTHONPATH=$VERIF_REPO:$HERE/lib:$HERE/checks
cd "$HERE"
exec python -W ignore "$HERE/lib/runner.py" "$ID" "$TIER"
