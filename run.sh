#!/bin/bash
# run.sh ARGS: python of the sandbox with the checks' environment
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONPATH=/verif PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD"
exec "$PY" "$@"
