#!/bin/bash
# bash run.sh <property id> [--replay FILE]: one check, in the environment of the repository's own tests.
cd "$(dirname "$0")" || exit 4
export LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export SETUPTOOLS_USE_DISTUTILS=local
export RAY_USAGE_STATS_ENABLED=0 RAY_AUTH_MODE=disabled
export PYTHONPATH="/repo:$PWD"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
# Settings of the code under test that happen to be in the caller's environment must not reach a check.
for v in $(compgen -e | grep '^pyanen_'); do unset "$v"; done
exec /opt/venv/bin/python -m mon.main "$@"
