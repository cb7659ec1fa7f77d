#!/bin/bash
# check.sh CHECK [--tier quick|thorough] [--replay FILE]
# Runs one property check against the code in /repo/src as it is now.
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
exec "${PY:-/opt/venv/bin/python}" run.py "$@"
