#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Confirms that they can.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" /opt/venv/bin/python -c 'import numpy, scipy, xarray, netCDF4, PyAnEn' || exit 1
