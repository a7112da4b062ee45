#!/bin/bash
# stable_in.sh DIR: run the stable tests in a copy of /repo
D=$(realpath "$1")
export HOME=/root PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 PYTHONHASHSEED=0
HERE=$(dirname "$(realpath "${BASH_SOURCE[0]}")")
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 AWS_EC2_METADATA_DISABLED=true PYTHONPATH="$D"
O=$(mktemp -d); cd "$D"
python -m pytest beep -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n "${2:-4}" --dist loadfile \
   -o junit_family=xunit2 --junitxml="$O/j.xml" >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py "$O/r.json" "junit:$O/j.xml" >/dev/null
python3 "$HERE/stable.py" "$O/r.json"
rm -rf "$O"
