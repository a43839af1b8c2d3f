#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m dst.run check "$@"
