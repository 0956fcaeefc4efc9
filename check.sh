#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PYTHONPATH=
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 RUST_BACKTRACE=0
exec /opt/spl-venv/bin/python lib/main.py "$@"
