#!/bin/bash
# bash run.sh C05 [--tier thorough]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec "${PY:-/opt/venv/bin/python}" mc/check.py "$@"
