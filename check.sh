#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -m dst.run "$@"
