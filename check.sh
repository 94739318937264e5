#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   (tier defaults to $VERIF_TIER or quick)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset DISABLE_C_EXTENSIONS RSCIIO_TEST_DATA_SOURCE POOCH_BASE_URL PYTEST_ADDOPTS PYTHONPATH
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore -m vf "$@"
