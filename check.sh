#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 PYTHONUTF8=0 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 HOME="${HOME:-/root}"
exec /opt/venv/bin/python -B -m pbt.runner "$@"
