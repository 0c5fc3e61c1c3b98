#!/bin/bash
# bash run.sh <property id> [quick|thorough]      run a check
# bash run.sh <property id> --replay <file>       rerun a recorded violation
# The code under test is always /repo/src as it is now (VERIF_REPO overrides it, for experiments on copies).
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export LANG=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONSTARTUP
PY=/opt/venv/bin/python
SCRATCH="$(mktemp -d)" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir "$SCRATCH/pyc" "$SCRATCH/tmp"
export VERIF_SCRATCH="$SCRATCH/tmp" TMPDIR="$SCRATCH/tmp"
"$PY" -B -X pycache_prefix="$SCRATCH/pyc" "$HERE/harness/run.py" "$@"
exit $?
