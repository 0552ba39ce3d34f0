#!/bin/bash
# run.sh PROPERTY [--replay FILE]: run one check on the working tree of /repo
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX="$here/.no-pycache" LC_ALL=C.UTF-8 PYTHONUTF8=1
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" "$here/vlib/main.py" "$@"
