#!/bin/bash
# run.sh CHECK [--tier quick|thorough] [...]: decide one property on /repo's current tree
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here${PYTHONPATH:+:$PYTHONPATH}" PYTHONHASHSEED=0
cd "$here" && exec /opt/venv/bin/python -W ignore "$here/symx/main.py" "$@"
