#!/bin/bash
# run.sh <ID> [--tier quick|thorough] [--replay FILE]: run one monitor against /repo's working tree.
# Offline, no writes to /repo or /opt/vp: the DLML directory pelicun needs is a scratch one.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
unset GITHUB_TOKEN PELICUN_GITHUB_API_URL PELICUN_GITHUB_RAW_URL DLML_REPO_OWNER DLML_REPO_NAME
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B "$here/lib/runner.py" "$@"
